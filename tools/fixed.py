"""Rewrites the fixed: lines of known_findings.jsonl from the fix commits in /repo."""
import os
import subprocess
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROP = [("removing a self-edge of an undirected", "C01"), ("removing a directed edge left", "C03"),
        ("intra-layer networks of a multiplex network ignored", "C07"), ("reading an inter-layer edge", "C06"),
        ("net[i,j,s,:]", "C05"), ("couplings of non-fully", "C06"), ("neighbors and strengths", "C06"),
        ("total strength of a directed multiplex", "C06"), ("neighbors of multiplex nodes in slices", "C05"),
        ("comparing networks with different fully", "C08"), ("equal specifications of no couplings", "C08"),
        ("supra-adjacency matrices lacked", "C09"), ("aggregate lost layers", "C10"), ("overlay_network lost", "C10"),
        ("threshold raised NameError", "C13"), ("subnet_iter with edge removals", "C14"), ("relabel modified", "C12"),
        ("multiplex networks coupled with a network could not be copied", "C11"), ("subnet of a multiplex network raised", "C11"),
        ("density raised", "C18"), ("overlap_degs raised", "C19"), ("isomorphisms of monoplex", "C21"),
        ("different numbers of fixed layers", "C21"), ("reading a coupling edge of a layer that is not", "C06")]
extra = os.path.join(VERIF, "tools", "fixed_extra.txt")
if os.path.exists(extra):
    PROP += [tuple(l.rstrip("\n").split("\t")) for l in open(extra) if l.strip()]
log = subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s"], stdout=subprocess.PIPE,
                     universal_newlines=True).stdout.splitlines()
p = os.path.join(VERIF, "known_findings.jsonl")
keep = [l for l in (open(p).read().splitlines() if os.path.exists(p) else []) if l and not l.startswith("fixed:")]
out = []
for l in log:
    h, s = l.split(" ", 1)
    if s.startswith("fix: "):
        m = [q for k, q in PROP if k in s]
        assert len(m) == 1, (s, m)
        out.append("fixed: property=%s %s %s" % (m[0], h, s[5:]))
open(p, "w").write("\n".join(out + keep) + "\n")
print(len(out), "fixed,", len(keep), "other lines")
