------------------------------- MODULE MLFiles -------------------------------
(***************************************************************************)
(* File formats.  A UCINET DL document is described by its matrices and    *)
(* labels (its textual layout is the harness's choice), an edge file by    *)
(* its rows; both denote a network.                                        *)
(***************************************************************************)
EXTENDS MLNet, SequencesExt

\* doc: [rl, cl: labels of rows and columns, ll: labels of the levels, m: one matrix per level,
\*       full, coup: coupling rule]
DocNodes(d) == Range(d.rl) \cup Range(d.cl)
DocCells(d) == {<<l, i, j>> \in (1..Len(d.m)) \X (1..Len(d.rl)) \X (1..Len(d.cl)) : d.rl[i] # d.cl[j] /\ d.m[l][i][j] # 0}
DocNet(d) ==
  LET multi == Len(d.m) > 1
      at(n, l) == IF multi THEN <<n, d.ll[l]>> ELSE <<n>>
      ends == {<<at(d.rl[c[2]], c[1]), at(d.cl[c[3]], c[1]), d.m[c[1]][c[2]][c[3]]>> : c \in DocCells(d)}
      es == ends \cup {<<x[2], x[1], x[3]>> : x \in ends}
      used == {x[1] : x \in es}
      nodes == IF d.full THEN DocNodes(d) ELSE {a[1] : a \in used}
      base == NewNet(IF multi THEN "mx" ELSE "ml", IF multi THEN 1 ELSE 0, FALSE, IF multi THEN d.full ELSE TRUE, 0,
                     IF multi THEN <<d.coup>> ELSE <<>>)
  IN [base EXCEPT !.el = IF multi THEN <<nodes, Range(d.ll)>> ELSE <<nodes>>,
                  !.nl = IF multi /\ ~d.full THEN used ELSE {},
                  !.e = [p \in {<<x[1], x[2]>> : x \in es} |-> (CHOOSE x \in es : <<x[1], x[2]>> = p)[3]]]

\* rows of an edge file: <<layer, from, to, weight>>; self-links are ignored
RECURSIVE Rows(_, _)
Rows(st, rows) ==
  IF rows = <<>> THEN st
  ELSE LET r == Head(rows)
       IN  Rows(IF r[2] = r[3] THEN st ELSE SetEdge(st, <<r[2], r[1]>>, <<r[3], r[1]>>, r[4]), Tail(rows))
=============================================================================
