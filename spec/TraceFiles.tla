----------------------------- MODULE TraceFiles ------------------------------
(***************************************************************************)
(* Recorded reading and writing of files (C32, C33).                       *)
(***************************************************************************)
EXTENDS TraceBase, MLFiles

BadUcinet(x) ==
  IF x.fn = "bad" THEN Is("malformed-file-accepted", x.obs.raised = 1, x.text)
  ELSE UNION {BadNet("read", DocNet(x.doc), x.obs.res), Is("file-name-or-lines", x.obs.same = 1, x.text)}

LinkKey(st, a, b) == IF st.dir THEN <<a, b>> ELSE {a, b}
\* every intra-layer edge exactly once, with its weight
EdgesOnce(clause, st, l, rows) ==
  LET E == {<<LinkKey(st, q[1][1], q[2][1]), st.e[q]>> : q \in {p \in DOMAIN st.e : p[1][2] = l}}
      G == [i \in DOMAIN rows |-> <<LinkKey(st, rows[i][1], rows[i][2]), rows[i][3]>>]
  IN  Is(clause, SameBag(G, E), <<l, rows, E>>)
BadJson(st, o) ==
  UNION {
    Is("json-nodes", SameBag(o.nodes, st.el[1]), o.nodes),
    Is("json-layers", SameBag(o.layers, st.el[2]), o.layers),
    Is("json-links", \A q \in Range(o.links) : q[1] \in 0..(Len(o.nodes)-1) /\ q[2] \in 0..(Len(o.nodes)-1) /\ q[4] \in 0..(Len(o.layers)-1), o.links),
    IF \E q \in Range(o.links) : ~(q[1] \in 0..(Len(o.nodes)-1) /\ q[2] \in 0..(Len(o.nodes)-1) /\ q[4] \in 0..(Len(o.layers)-1)) THEN {}
    ELSE UNION {EdgesOnce("json-edges", st, l,
                  LET mine == SelectSeq(o.links, LAMBDA q : o.layers[q[4]+1] = l)
                  IN  [i \in DOMAIN mine |-> <<o.nodes[mine[i][1]+1], o.nodes[mine[i][2]+1], mine[i][3]>>]) : l \in st.el[2]}}
BadFiles(x) ==
  IF x.fn = "read" THEN
    LET st == Rows(New(x.cfg), x.rows)
    IN  BadNet("read", st, x.obs.res)
  ELSE
    LET st == NetOf(x.net) o == x.obs
        unw == [st EXCEPT !.e = [p \in DOMAIN st.e |-> 1]]
    IN UNION {
        UNION {BadJson(st, d) : d \in Range(o.json)},
        UNION {UNION {
          Is("edge-files", SameBag([i \in DOMAIN f.layers |-> f.layers[i][1]], st.el[2]), f),
          UNION {EdgesOnce("edge-file", IF f.weights = 1 THEN st ELSE unw, q[1], q[2]) : q \in Range(f.layers)},
          Is("master-file", f.wanted = f.written /\ (~f.wanted \/ SameBag(f.master, st.el[2])), f)} : f \in Range(o.files)},
        BadNet("input", st, o.after)}
=============================================================================
