"""Runs the checks of planted bugs:  runseeds.py [ID...]   (all of them without arguments)"""
import json
import os
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def one(s):
    d = os.path.join(V, "seeded", s)
    pid = json.load(open(os.path.join(d, "meta.json")))["property"]
    tmp = tempfile.mkdtemp(prefix="rs-")
    try:
        r, v = os.path.join(tmp, "repo"), os.path.join(tmp, "verif")
        shutil.copytree("/repo", r, symlinks=True)
        shutil.copytree(V, v, symlinks=True, ignore=shutil.ignore_patterns(".git", "seeded", "evidence", "__pycache__"))
        p = subprocess.run(["git", "apply", os.path.join(d, "patch.diff")], cwd=r, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, universal_newlines=True)
        if p.returncode:
            return s, "DOES NOT APPLY", p.stdout
        p = subprocess.run([os.path.join(v, "bin/check"), pid.lower(), "quick"], cwd=v, env=dict(os.environ, VERIF_REPO=r),
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, universal_newlines=True)
        cl = [l for l in p.stdout.splitlines() if l.startswith("  clauses")]
        return s, "caught" if p.returncode == 1 and "VIOLATION property=" + pid in p.stdout else "MISSED", (cl or p.stdout.splitlines()[-3:])
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


ids = sys.argv[1:] or sorted(os.listdir(os.path.join(V, "seeded")))
with ThreadPoolExecutor(3) as ex:
    for s, st, why in ex.map(one, ids):
        print("%-34s %-8s %s" % (s, st, str(why)[:160]), flush=True)
