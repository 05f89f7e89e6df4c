---------------------------- MODULE MLDiagnostics ----------------------------
(***************************************************************************)
(* Degree distributions, densities, overlaps and shortest paths.           *)
(***************************************************************************)
EXTENDS MLBase, SequencesExt

DegOf(st, a) == DegView(st, a, "tot", NoDims(st))
DegNodes(st, N) == {<<a, DegOf(st, a)>> : a \in N}
Distribution(pairs) ==
  {<<d, Cardinality({q \in pairs : q[2] = d})>> : d \in {q[2] : q \in pairs}}

\* density as <<numerator, denominator>>
DensityOf(nedges, n, dir) ==
  LET den == IF dir THEN n * (n - 1) ELSE (n * (n - 1)) \div 2
  IN  IF den = 0 THEN <<0, 1>> ELSE <<nedges, den>>
Density(st) == DensityOf(NumEdges(st), Cardinality(NodeLayers(st)), st.dir)

(* ---- one layer of a multiplex network ---- *)
LayerNet(st, l) ==
  [NewNet("ml", 0, st.dir, TRUE, st.noedge, <<>>) EXCEPT
     !.el = <<NodesIn(st, l)>>,
     !.e = [p \in {<<<<q[1][1]>>, <<q[2][1]>>>> : q \in {x \in DOMAIN st.e : Tail(x[1]) = l}} |->
              st.e[<<p[1] \o l, p[2] \o l>>]]]

(* ---- overlap degrees: links in exactly the layers of S (one aspect) ---- *)
LinkedIn(st, i, j) == {l \in st.el[2] : <<<<i, l>>, <<j, l>>>> \in DOMAIN st.e}
OverlapDeg(st, S, i) == Cardinality({j \in st.el[1] \ {i} : LinkedIn(st, i, j) = S})

(***************************************************************************)
(* Shortest paths from a set of sources, no weight negative                *)
(***************************************************************************)
FAR == 1000000
Relax(st, d) ==
  [a \in DOMAIN d |->
     LET via == {d[q[1]] + Link(st, q[1], q[2]) : q \in {x \in EdgePairs(st) : x[2] = a /\ d[x[1]] < FAR}}
     IN  Min({d[a]} \cup via)]
RECURSIVE Fix(_, _)
Fix(st, d) == LET n == Relax(st, d) IN IF n = d THEN d ELSE Fix(st, n)
Dist(st, S) == Fix(st, [a \in NodeLayers(st) |-> IF a \in S THEN 0 ELSE FAR])
Reached(d) == {a \in DOMAIN d : d[a] < FAR}
\* the edges on shortest paths
Tight(st, d) == {q \in EdgePairs(st) : d[q[1]] < FAR /\ d[q[1]] + Link(st, q[1], q[2]) = d[q[2]] /\ q[1] # q[2]}

\* edges from which T can be reached along the edges E (backwards from the targets)
RECURSIVE BackEdges(_, _, _)
BackEdges(E, T, acc) ==
  LET new == {q \in E : q[2] \in T} \ acc
  IN  IF new = {} THEN acc ELSE BackEdges(E, T \cup {q[1] : q \in new}, acc \cup new)
=============================================================================
