------------------------------ MODULE MLMatrix ------------------------------
(***************************************************************************)
(* The supra-adjacency matrix: rows and columns are node-layers.           *)
(***************************************************************************)
EXTENDS MLBase

\* entry of the matrix for node-layers a and b
SupraEntry(st, a, b, inter) ==
  IF ~inter /\ Tail(a) # Tail(b) THEN 0
  ELSE IF HasEdge(st, a, b) THEN Link(st, a, b) ELSE 0
\* the listed rows: every node-layer once; other combinations of elements may be
\* listed too (their rows are zero)
RowsOK(st, rows) ==
  /\ Cardinality(Range(rows)) = Len(rows)
  /\ NodeLayers(st) \subseteq Range(rows)
  /\ Range(rows) \subseteq Product(st.el)
MatrixOK(st, rows, m, inter) ==
  /\ Len(m) = Len(rows)
  /\ \A i \in DOMAIN m : Len(m[i]) = Len(rows)
  /\ \A i, j \in DOMAIN rows : m[i][j] = SupraEntry(st, rows[i], rows[j], inter)
=============================================================================
