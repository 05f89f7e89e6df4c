"""which planted bugs change at least one line of the original repository"""
import os
import re
import subprocess
BASE = "8332114"
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
for sid in sorted(os.listdir(V + "/seeded")):
    f = V + "/seeded/%s/patch.diff" % sid
    cur, ln, ok, removed = None, 0, False, 0
    for line in open(f):
        if line.startswith("--- "):
            cur = line[6:].strip()
            bl = subprocess.run(["git", "-C", "/repo", "blame", "-s", "-l", "HEAD", "--", cur], stdout=subprocess.PIPE, universal_newlines=True).stdout.splitlines()
            continue
        m = re.match(r"@@ -(\d+)", line)
        if m:
            ln = int(m.group(1))
            continue
        if line.startswith("+"):
            continue
        if line.startswith("-"):
            removed += 1
            if bl[ln - 1].startswith(("^" + BASE, BASE)):
                ok = True
        ln += 1
    if not ok:
        print(sid, "removed lines:", removed)
