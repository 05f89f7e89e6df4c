"""Planting bugs: verifies a change in a scratch copy of /repo and stores it under seeded/.

    from seed import plant
    plant(id, property, [(file, old, new), ...], demo_source, needs, breaks)
"""
import json
import os
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
SH = '#!/bin/bash\n# exit 0 when the behaviour is right, nonzero when it is broken\nexport PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg MPLCONFIGDIR=/opt/venv/mplconfig\nexec /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"\n'
PRE = 'import os, sys\nsys.path.insert(0, os.getcwd())\n'


def sh(cmd, cwd, **env):
    e = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", MPLBACKEND="Agg", MPLCONFIGDIR="/opt/venv/mplconfig",
             PYTHONHASHSEED="0", PYTHONPATH="/opt/vp", OMP_NUM_THREADS="1")
    e.update(env)
    p = subprocess.run(cmd, cwd=cwd, env=e, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, universal_newlines=True)
    return p.returncode, p.stdout


def plant(id, prop, edits, demo, needs, breaks, checks=None, files=None, test=True):
    tmp = tempfile.mkdtemp(prefix="seed-")
    r = os.path.join(tmp, "repo")
    ok = False
    try:
        shutil.copytree("/repo", r, symlinks=True)
        d = os.path.join(tmp, "demo")
        os.makedirs(d)
        with open(os.path.join(d, "demo.sh"), "w") as f:
            f.write(SH)
        with open(os.path.join(d, "demo.py"), "w") as f:
            f.write(PRE + demo.lstrip("\n"))
        for n, t in (files or {}).items():
            with open(os.path.join(d, n), "w") as f:
                f.write(t)
        os.chmod(os.path.join(d, "demo.sh"), 0o755)
        rc, out = sh("timeout 300 bash %s/demo.sh" % d, r)
        if rc != 0:
            print("%s: demo fails on the unchanged tree (%d)\n%s" % (id, rc, out[-1500:]))
            return False
        for fn, old, new in edits:
            p = os.path.join(r, fn)
            s = open(p).read()
            if s.count(old) != 1:
                print("%s: %d occurrences of %r in %s" % (id, s.count(old), old, fn))
                return False
            open(p, "w").write(s.replace(old, new))
        rc, out = sh("git diff", r)
        with open(os.path.join(d, "patch.diff"), "w") as f:
            f.write(out)
        rc, out = sh("timeout 300 bash %s/demo.sh" % d, r)
        if rc == 0:
            print("%s: demo passes with the patch" % id)
            return False
        last = out.strip().splitlines()[-1:] or [""]
        if test:
            rc, out = sh("/opt/venv/bin/python -m pytest -q -p no:cacheprovider -p pymnet_select -n 4 --timeout=180 -W ignore "
                         "-o 'python_files=*_test.py test_*.py' --rootdir=%s pymnet/tests 2>&1 | tail -8" % r, r)
            if "4 failed, 100 passed" not in out:
                print("%s: tests: %s" % (id, out))
                return False
        with open(os.path.join(d, "meta.json"), "w") as f:
            json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, f, indent=1)
        dst = os.path.join(VERIF, "seeded", id)
        shutil.rmtree(dst, ignore_errors=True)
        shutil.copytree(d, dst)
        ok = True
        print("%s: kept (%s)" % (id, last[0][:120]))
        for c in checks or [prop.lower()]:
            rc, out = sh("%s/bin/check %s quick" % (VERIF, c), VERIF, VERIF_REPO=r)
            print("   check %s -> %d %s" % (c, rc, "CAUGHT" if rc == 1 else "MISSED " + out[-500:]))
            for l in out.splitlines():
                if l.startswith("  case"):
                    print("     ", l[:200])
                    break
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    return ok
