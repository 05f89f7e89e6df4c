"""Runs the real library on a shard of cases.   driver.py CHECK IN OUT"""
import importlib
import json
import os
import random
import resource
import signal
import sys
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [HERE, os.environ.get("VERIF_REPO", "/repo")]
sys.setrecursionlimit(5000)


class CaseTimeout(BaseException):
    pass


def _alarm(signum, frame):
    raise CaseTimeout()


def preload():
    """the libraries the code under test loads, outside the time limit of the first case"""
    for m in ("numpy", "scipy.sparse", "networkx", "matplotlib.pyplot", "mpl_toolkits.mplot3d"):
        try:
            importlib.import_module(m)
        except Exception:
            pass


def limits(seconds):
    """processor time, which does not depend on what else runs here; elapsed time only against waiting for ever"""
    signal.setitimer(signal.ITIMER_PROF, seconds)
    signal.setitimer(signal.ITIMER_REAL, 8 * seconds)


def main():
    check, fin, fout = sys.argv[1:4]
    limit = float(os.environ.get("VERIF_CASE_TIMEOUT", "20"))
    mod = importlib.import_module("checks." + check)
    signal.signal(signal.SIGALRM, _alarm)
    signal.signal(signal.SIGPROF, _alarm)
    preload()
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    timeouts = 0
    sys.stdout.write("VERIF-DRIVER-READY\n")
    sys.stdout.flush()
    with open(fin) as f, open(fout, "w") as g:
        for line in f:
            case = json.loads(line)
            if timeouts >= 3:    # the remaining cases are skipped
                g.write(json.dumps({"id": case["id"], "skipped": True}) + "\n")
                continue
            random.seed(case["id"])
            limits(limit)
            try:
                res = mod.run(case)
            except CaseTimeout:
                timeouts += 1
                res = mod.failed(case, "Timeout")
            except Exception as e:
                res = mod.failed(case, "%s: %s" % (type(e).__name__, str(e)[:200]))
                if os.environ.get("VERIF_DEBUG"):
                    traceback.print_exc()
            finally:
                limits(0)
            g.write(json.dumps(res) + "\n")
            g.flush()


if __name__ == "__main__":
    main()
