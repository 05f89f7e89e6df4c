"""Orchestration of one check: model checking of the specification, generation
of cases, execution of the real code, validation of the recorded traces by TLC,
verdict, evidence."""
import copy
import importlib
import json
import os
import random
import re
import shutil
import subprocess
import sys
import tempfile
import time

import laws

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
SPEC = os.path.join(VERIF, "spec")
PY = "/opt/venv/bin/python"
TLA_CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
NCPU = min(8, os.cpu_count() or 1)
CANARY = 10 ** 6
FN_CFG = """SPECIFICATION Spec
CONSTANT Bad <- %s
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
"""


class Machinery(Exception):
    """the check itself could not be carried out"""


class TLCResult(object):
    def __init__(self, out, rc, wall):
        self.out = out
        self.rc = rc
        self.wall = wall
        self.fails = []
        self.gens = []
        self.done = None
        for line in out.splitlines():
            if line.startswith('"FAIL '):
                self.fails.append(json.loads(json.loads(line)[5:]))
            elif line.startswith('"GEN '):
                self.gens.append(json.loads(json.loads(line)[4:]))
            elif line.startswith('"DONE '):
                self.done = line.strip('"').split()[1:]
        m = re.search(r"(\d+) states generated, (\d+) distinct states found", out)
        self.generated = int(m.group(1)) if m else 0
        self.distinct = int(m.group(2)) if m else 0
        m = re.search(r"depth of the complete state graph search is (\d+)", out)
        self.depth = int(m.group(1)) if m else 0

    @property
    def clean(self):
        return self.rc == 0 and not re.search(r"(?m)^Error:", self.out)


def tlc(module, work, env=None, workers=NCPU, seed=1, cfg=None, extra=(), timeout=800, heap="6g", cfgtext=None):
    md = tempfile.mkdtemp(prefix="md", dir=work)
    cfg = cfg or module + ".cfg"
    cfgpath = os.path.join(SPEC, cfg)
    if cfgtext is not None:
        cfgpath = os.path.join(md, module + "_gen.cfg")
        with open(cfgpath, "w") as f:
            f.write(cfgtext)
    cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss64m", "-Djava.io.tmpdir=" + md,
           "-cp", TLA_CP, "tlc2.TLC", "-config", cfgpath,
           "-fp", "3", "-seed", str(seed), "-workers", str(workers), "-metadir", md,
           "-noGenerateSpecTE", "-checkpoint", "0"] + list(extra) + [os.path.join(SPEC, module + ".tla")]
    e = dict(os.environ)
    e.update(env or {})
    t = time.time()
    try:
        p = subprocess.run(cmd, cwd=work, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           timeout=timeout, universal_newlines=True, errors="replace")
        out, rc = p.stdout, p.returncode
    except subprocess.TimeoutExpired as x:
        raise Machinery("TLC timed out on %s after %ss" % (module, timeout))
    shutil.rmtree(md, ignore_errors=True)
    return TLCResult(out, rc, time.time() - t)


def driver_env(extra=None):
    e = dict(os.environ)
    e.update({"PYTHONDONTWRITEBYTECODE": "1", "MPLBACKEND": "Agg", "PYTHONHASHSEED": "0",
              "OMP_NUM_THREADS": "1", "OPENBLAS_NUM_THREADS": "1"})
    e.setdefault("MPLCONFIGDIR", "/opt/venv/mplconfig")
    e.update(extra or {})
    return e


def drive(check, cases, work, timeout=800, ncpu=NCPU, limit=20):
    """run the real code on all cases, in parallel shards; returns results in case order"""
    if not cases:
        return []
    n = max(1, min(ncpu, len(cases)))
    procs = []
    for k in range(n):
        fin = os.path.join(work, "in%d.ndjson" % k)
        fout = os.path.join(work, "out%d.ndjson" % k)
        with open(fin, "w") as f:
            for c in cases[k::n]:
                f.write(json.dumps(c) + "\n")
        log = open(os.path.join(work, "log%d" % k), "w")
        scratch = os.path.join(work, "scratch%d" % k)
        os.makedirs(scratch, exist_ok=True)
        p = subprocess.Popen([PY, "-W", "ignore", os.path.join(HERE, "driver.py"), check, fin, fout],
                             cwd=scratch, stdout=log, stderr=log,
                             env=driver_env({"VERIF_SCRATCH": scratch, "VERIF_CASE_TIMEOUT": str(limit)}))
        procs.append((p, fin, fout, log))
    t0 = time.time()
    res = {}
    for k, (p, fin, fout, log) in enumerate(procs):
        try:
            rc = p.wait(timeout=max(1, timeout - (time.time() - t0)))
        except subprocess.TimeoutExpired:
            p.kill()
            rc = -1
        log.close()
        with open(fout) as f:
            for line in f:
                if line.endswith("\n"):
                    r = json.loads(line)
                    res[r["id"]] = None if r.get("skipped") else r
        if rc != 0:
            with open(os.path.join(work, "log%d" % k)) as f:
                tail = f.read()[-2000:]
            mine = cases[k::n]
            missing = [c for c in mine if c["id"] not in res]
            if len(missing) == len(mine) and "VERIF-DRIVER-READY" not in tail and rc not in (-1, -9, -11, -6):
                raise Machinery("driver shard %d ended with %s:\n%s" % (k, rc, tail))
            # the case being executed brought the process down (or never returned)
            mod = importlib.import_module("checks." + check)
            for j, c in enumerate(missing):
                if j == 0:
                    res[c["id"]] = mod.failed(c, "the process running the call ended with status %s" % rc)
                else:
                    res[c["id"]] = None
    return [res[c["id"]] for c in cases]


def plain(x):
    """only the JSON values that TLC can read"""
    if isinstance(x, dict):
        return {k: plain(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [plain(v) for v in x]
    if x is None or isinstance(x, float):
        return repr(x)
    return x


def corrupt(res, rng, leaf_ok=None):
    """a copy of a recorded trace with one observed integer changed, or None"""
    r = copy.deepcopy(res)
    leaves = []

    def walk(x, path):
        if isinstance(x, dict):
            for k in x:
                walk(x[k], path + [k])
        elif isinstance(x, list):
            for i, y in enumerate(x):
                walk(y, path + [i])
        elif isinstance(x, int) and not isinstance(x, bool):
            leaves.append(path)
    if "steps" in r:
        for i, s in enumerate(r["steps"]):
            walk(s.get("obs", {}), ["steps", i, "obs"])
    if "obs" in r:
        walk(r["obs"], ["obs"])
    leaves = [p for p in leaves if leaf_ok is None or leaf_ok(p)]
    if not leaves:
        return None
    p = rng.choice(leaves)
    x = r
    for k in p[:-1]:
        x = x[k]
    x[p[-1]] += 1
    r["corrupted"] = ".".join(map(str, p))
    return r


class Run(object):
    def __init__(self, check, tier, seed):
        self.check = check
        self.mod = importlib.import_module("checks." + check)
        self.pid = self.mod.PID
        self.tier = tier
        self.seed = seed
        self.t0 = time.time()
        self.states = 0
        self.transitions = 0
        self.partial = False    # trace validation given up after several records TLC could not evaluate
        self.tlc_runs = []
        self.work = tempfile.mkdtemp(prefix="verif-%s-" % self.pid)

    def note(self, name, r):
        self.states += r.distinct
        self.transitions += r.generated
        self.tlc_runs.append({"run": name, "distinct_states": r.distinct, "states_generated": r.generated,
                              "depth": r.depth, "wall_s": round(r.wall, 1)})

    # -- stages
    def model(self):
        for name, kw in laws.models(self.pid, self.tier) + self.mod.models(self.tier):
            r = tlc(work=self.work, seed=self.seed, **kw)
            self.note(name, r)
            if not r.clean:
                raise Machinery("the specification itself fails its model check %s:\n%s" % (name, r.out[-3000:]))

    def generate(self, params, inv=False):
        """random behaviours of MLNet from TLC"""
        f = os.path.join(self.work, "gen.json")
        with open(f, "w") as g:
            json.dump(params, g)
        r = tlc("NetGen", self.work, env={"GEN_FILE": f}, workers=1, seed=self.seed)
        self.note("NetGen", r)
        if not r.clean or len(r.gens) != sum(p["n"] for p in params):
            raise Machinery("generation failed:\n" + r.out[-3000:])
        return r.gens

    def validate(self, results, module=None, timeout=800):
        """verdicts of TLC on recorded traces.  A record TLC cannot even evaluate
        (a value outside of the specification's domain) is reported as failing."""
        module = module or self.mod.TRACE
        results = list(results)
        extra = []
        t0 = time.time()
        for attempt in range(6):
            f = os.path.join(self.work, "trace.ndjson")
            with open(f, "w") as g:
                for r in results:
                    g.write(json.dumps(plain(r)) + "\n")
            cfgtext = None
            if hasattr(self.mod, "BAD"):
                cfgtext = FN_CFG % self.mod.BAD
            r = tlc(module, self.work, env={"TRACE_FILE": f}, timeout=max(30, timeout - (time.time() - t0)), cfgtext=cfgtext)
            self.note("validate:" + module, r)
            if r.clean and r.done is not None and r.done[0] == r.done[1]:
                return r.fails + extra
            m = re.findall(r"(?m)^(?:/\\ )?c = (\d+)", r.out)
            if not re.search(r"(?m)^Error:", r.out) or not m:
                break
            i = int(m[-1]) - 1
            if not 0 <= i < len(results):
                break
            why = re.search(r"(?ms)^Error: (.*?)^(?:Error: The|The error occurred|Finished)", r.out)
            extra.append({"id": results[i]["id"], "step": 0,
                          "bad": [{"clause": "not-evaluable", "witness": (why.group(1) if why else "")[:400]}]})
            if attempt == 4 or results[i]["id"] >= CANARY:
                extra.pop() if results[i]["id"] >= CANARY else None
                if attempt == 4:
                    self.partial = True
                    return extra
            del results[i]
        raise Machinery("trace validation did not complete:\n" + r.out[-4000:])

    def main(self):
        try:
            return self._main()
        except Machinery as e:
            print("ERROR: %s" % e)
            return 2
        finally:
            shutil.rmtree(self.work, ignore_errors=True)

    def _main(self):
        mod = self.mod
        for old in (os.path.join(VERIF, "evidence", self.pid + ".json"),
                    os.path.join(VERIF, "evidence", "replays", self.pid + ".json")):
            if os.path.exists(old):
                os.remove(old)
        self.model()
        t = time.time()
        cases = mod.cases(self)
        for i, c in enumerate(cases):
            c["id"] = i + 1
        tgen = time.time() - t
        t = time.time()
        results = drive(self.check, cases, self.work, limit=getattr(mod, "CASE_LIMIT", 20))
        keep = [i for i in range(len(results)) if results[i] is not None]
        if len(keep) < len(results):     # not executed after a crash or repeated timeouts
            cases = [cases[i] for i in keep]
            results = [results[i] for i in keep]
            for i, c in enumerate(cases):
                c["id"] = results[i]["id"] = i + 1
        tdrive = time.time() - t
        rng = random.Random(self.seed)
        canaries = []
        ncan = min(60, len(results))
        for k, i in enumerate(rng.sample(range(len(results)), ncan)):
            c = corrupt(results[i], rng, getattr(mod, "leaf_ok", None))
            if c is not None:
                c["id"] = CANARY + k
                canaries.append(c)
        fails = self.validate(results + canaries)
        bad = {}
        canbad = set()
        for f in fails:
            if f["id"] >= CANARY:
                canbad.add(f["id"])
            else:
                bad.setdefault(f["id"], []).append(f)
        if os.environ.get("VERIF_DEBUG"):
            print("not rejected:", [c["corrupted"] for c in canaries if c["id"] not in canbad])
        if canaries and not (self.partial and bad) and len(canbad) * 2 < len(canaries):
            raise Machinery("only %d of %d corrupted traces were rejected" % (len(canbad), len(canaries)))

        findings = load_findings(self.pid)
        known, viol = {}, []
        for cid, fs in sorted(bad.items()):
            case = cases[cid - 1]
            for f in fs:
                for b in f["bad"]:
                    key = mod.finding_key(case, f, b) if hasattr(mod, "finding_key") else None
                    if key is not None and key in findings:
                        known.setdefault(key, 0)
                        known[key] += 1
                    else:
                        viol.append((cid, f.get("step", 0), b))
        for key in sorted(known):
            print("KNOWN-FINDING: property=%s %s" % (self.pid, findings[key]))
        replay = None
        if viol:
            def size(v):
                return len(json.dumps(cases[v[0] - 1]))
            viol.sort(key=size)
            rd = os.path.join(VERIF, "evidence", "replays")
            os.makedirs(rd, exist_ok=True)
            cid, step, b = viol[0]
            replay = os.path.join(rd, "%s.json" % self.pid)
            with open(replay, "w") as g:
                json.dump({"property": self.pid, "check": self.check, "case": cases[cid - 1],
                           "recorded": results[cid - 1], "step": step, "clause": b["clause"],
                           "witness": b["witness"], "all_violations": len(viol)}, g, indent=1)
        nontriv = set()
        for c, r in zip(cases, results):
            k = mod.nontrivial(c, r) if hasattr(mod, "nontrivial") else json.dumps({x: c[x] for x in c if x != "id"}, sort_keys=True)
            if k:
                nontriv.add(k)
        samples = []
        for i in ([0, len(cases) // 2] if len(cases) > 1 else [0] if cases else []):
            s = json.dumps(cases[i])
            samples.append(json.loads(s) if len(s) < 3000 else s[:3000])
        clauses = {}
        for v in viol:
            clauses[v[2]["clause"]] = clauses.get(v[2]["clause"], 0) + 1
        ev = {"property": self.pid, "tier": self.tier, "seed": self.seed, "level": "model_checking",
              "coverage": {"states": self.states, "transitions": self.transitions,
                           "traces_validated_against_impl": len(results),
                           "evaluations": len(cases), "distinct_nontrivial": len(nontriv),
                           "rule": getattr(mod, "RULE", "distinct case inputs"),
                           "tlc_runs": self.tlc_runs,
                           "trace_steps": sum(len(r.get("steps", [1])) for r in results),
                           "corrupted_traces_submitted": len(canaries),
                           "corrupted_traces_rejected": len(canbad),
                           "known_findings_seen": sum(known.values()),
                           "violating_clauses": clauses,
                           "seconds": {"generate": round(tgen, 1), "drive": round(tdrive, 1)},
                           "samples": samples},
              "assumptions": getattr(mod, "ASSUMPTIONS", []),
              "wall_s": round(time.time() - self.t0, 2), "violations": len(viol)}
        if hasattr(mod, "evidence"):
            ev["coverage"].update(mod.evidence(cases, results))
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w") as g:
            json.dump(ev, g, indent=1)
        print("%s tier=%s seed=%d cases=%d steps=%d states=%d canaries=%d/%d wall=%.1fs" % (
            self.pid, self.tier, self.seed, len(cases), ev["coverage"]["trace_steps"], self.states,
            len(canbad), len(canaries), time.time() - self.t0))
        if viol:
            for cid, step, b in viol[:8]:
                print("  case %d step %d clause %s: %s" % (cid, step, b["clause"], b["witness"][:400]))
            print("  clauses: %s" % clauses)
            print("VIOLATION property=%s replay=%s" % (self.pid, replay))
            return 1
        return 0


def load_findings(pid):
    out = {}
    p = os.path.join(VERIF, "known_findings.jsonl")
    if os.path.exists(p):
        with open(p) as f:
            for line in f:
                line = line.strip()
                if not line or line.startswith("#") or line.startswith("fixed:"):
                    continue
                d = json.loads(line)
                if d.get("status") == "open" and d["property"] == pid:
                    out[d["key"]] = d["what"]
    return out


def main(argv):
    sys.path.insert(0, HERE)
    check = argv[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    if len(argv) > 1:
        tier = argv[1]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    return Run(check, tier, seed).main()


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
