----------------------------- MODULE MLTransforms -----------------------------
(***************************************************************************)
(* Functions from networks to networks.                                    *)
(***************************************************************************)
EXTENDS MLBase, SequencesExt

Weightless == [x \in {} |-> 0]
\* drop the pairs whose value is the no-edge marker
DropNoEdge(f, noedge) == [q \in {p \in DOMAIN f : f[p] # noedge} |-> f[q]]

(***************************************************************************)
(* Aggregation over a set of aspects                                       *)
(***************************************************************************)
KeptPos(asp, D) == SetToSortSeq({k \in 1..(asp+1) : (k-1) \notin D}, <)
ProjOn(keep, a) == [i \in DOMAIN keep |-> a[keep[i]]]

\* the sum of the weights of the edges that become the edge x-y
AggWeight(st, keep, x, y) ==
  LET Q == {q \in EdgePairs(st) : ProjOn(keep, q[1]) = x /\ ProjOn(keep, q[2]) = y}
      W(S) == SumPairs({<<q, Link(st, q[1], q[2])>> : q \in S})
  IN  IF st.dir \/ x # y THEN W(Q)
      ELSE LET self == {q \in Q : q[1] = q[2]} IN W(self) + W(Q \ self) \div 2

Aggregate(st, D, selfEdges) ==
  LET keep == KeptPos(st.asp, D)
      asp  == st.asp - Cardinality(D)
      prs  == {<<ProjOn(keep, q[1]), ProjOn(keep, q[2])>> : q \in EdgePairs(st)}
      used == IF selfEdges THEN prs ELSE {p \in prs : p[1] # p[2]}
      sums == [p \in used |-> AggWeight(st, keep, p[1], p[2])]
      base == NewNet("ml", asp, st.dir, st.full, st.noedge, <<>>)
  IN  [base EXCEPT !.el = [i \in DOMAIN keep |-> st.el[keep[i]]],
                   !.nl = IF base.full THEN {} ELSE {ProjOn(keep, a) : a \in st.nl},
                   !.e = DropNoEdge(sums, st.noedge)]

\* the sum of the intra-layer networks (one aspect)
Overlay(st) ==
  LET base == NewNet("ml", 0, st.dir, TRUE, 0, <<>>)
      intra == {q \in EdgePairs(st) : Tail(q[1]) = Tail(q[2]) /\ q[1] # q[2]}
      prs  == {<<<<q[1][1]>>, <<q[2][1]>>>> : q \in intra}
      sums == [p \in prs |-> SumPairs({<<q, Link(st, q[1], q[2])>> :
                               q \in {x \in intra : x[1][1] = p[1][1] /\ x[2][1] = p[2][1]}})]
  IN  [base EXCEPT !.el = <<st.el[1]>>, !.e = DropNoEdge(sums, 0)]

(***************************************************************************)
(* Induced subnetworks.  sel[k] is the set of elements selected.           *)
(***************************************************************************)
InSel(sel, a) == \A k \in DOMAIN a : a[k] \in sel[k]
Subnet(st, sel, nolinks) ==
  LET nl == {a \in NodeLayers(st) : InSel(sel, a)}
  IN  [st EXCEPT !.el = [k \in DOMAIN st.el |->
                           IF k = 1 /\ ~st.full THEN {a[1] : a \in nl} ELSE st.el[k] \cap sel[k]],
                 !.nl = IF st.full THEN {} ELSE nl,
                 !.e = IF nolinks THEN Weightless
                       ELSE [q \in {p \in DOMAIN st.e : p[1] \in nl /\ p[2] \in nl} |-> st.e[q]]]

\* a multiplex network copied to a multilayer network: couplings become edges
AsMultilayer(st) ==
  IF st.kind = "ml" THEN st
  ELSE [Explicit(st) EXCEPT !.kind = "ml", !.coup = <<>>]
\* ... and to a network that is not fully interconnected
AsPartial(st) == IF st.asp = 0 THEN st ELSE [st EXCEPT !.nl = NodeLayers(st), !.full = FALSE]

(***************************************************************************)
(* Renaming.  m[k] is an injective function on the elements of position k  *)
(***************************************************************************)
Ren(m, k, x) == IF x \in DOMAIN m[k] THEN m[k][x] ELSE x
RenNL(m, a) == [k \in DOMAIN a |-> Ren(m, k, a[k])]
Relabel(st, m) ==
  LET inv(p) == CHOOSE q \in DOMAIN st.e : RenNL(m, q[1]) = p[1] /\ RenNL(m, q[2]) = p[2]
      prs == {<<RenNL(m, q[1]), RenNL(m, q[2])>> : q \in DOMAIN st.e}
      coup(k) == IF st.coup[k].t # "network" THEN st.coup[k]
                 ELSE [st.coup[k] EXCEPT !.e = [i \in DOMAIN st.coup[k].e |->
                          <<Ren(m, k+1, st.coup[k].e[i][1]), Ren(m, k+1, st.coup[k].e[i][2]), st.coup[k].e[i][3]>>]]
  IN  [st EXCEPT !.el = [k \in DOMAIN st.el |-> {Ren(m, k, x) : x \in st.el[k]}],
                 !.nl = {RenNL(m, a) : a \in st.nl},
                 !.coup = [k \in DOMAIN st.coup |-> coup(k)],
                 !.e = [p \in prs |-> st.e[inv(p)]]]
\* the order-preserving renaming of a set of integers to start, start+1, ...
Ranking(S, start) == [x \in S |-> start + Cardinality({y \in S : y < x})]
NormMaps(st, nstart, lstart) ==
  [k \in DOMAIN st.el |-> Ranking(st.el[k], IF k = 1 THEN nstart ELSE lstart)]

(***************************************************************************)
(* Thresholding                                                            *)
(***************************************************************************)
Accepts(w, rule, t) ==
  CASE rule = ">=" -> w >= t [] rule = "<=" -> w <= t [] rule = ">" -> w > t [] rule = "<" -> w < t
\* a multiplex network with couplings turns into a multilayer network
Threshold(st, rule, t) ==
  LET b == IF st.kind = "mx" /\ \A k \in DOMAIN st.coup : st.coup[k].t = "none" THEN st ELSE AsMultilayer(st)
  IN  [b EXCEPT !.e = [q \in {p \in DOMAIN b.e : Accepts(b.e[p], rule, t)} |-> b.e[q]]]

(***************************************************************************)
(* All subnetworks.                                                        *)
(***************************************************************************)
SelSets(st, removable) ==
  [k \in DOMAIN st.el |-> IF (k-1) \in removable THEN (SUBSET st.el[k]) \ {{}} ELSE {st.el[k]}]
Selections(st, removable) ==
  LET S == SelSets(st, removable)
  IN  CASE Len(S) = 1 -> {<<x>> : x \in S[1]}
        [] Len(S) = 2 -> {<<x, y>> : x \in S[1], y \in S[2]}
        [] Len(S) = 3 -> {<<x, y, z>> : x \in S[1], y \in S[2], z \in S[3]}
        [] Len(S) = 4 -> {<<x, y, z, w>> : x \in S[1], y \in S[2], z \in S[3], w \in S[4]}
\* stored edges as one representative per edge
EdgeReps(st) == {q \in DOMAIN st.e : st.dir \/ q[1] = q[2] \/
                   \E k \in DOMAIN q[1] : q[1][k] < q[2][k] /\ \A j \in 1..(k-1) : q[1][j] = q[2][j]}
KeepEdges(st, R) ==
  [st EXCEPT !.e = [q \in {p \in DOMAIN st.e : p \in R \/ (~st.dir /\ <<p[2], p[1]>> \in R)} |-> st.e[q]]]
\* identified by the selection and the kept edges
AllSubnets(st, removable, removeEdges) ==
  UNION {LET s == Subnet(st, sel, FALSE)
         IN  {<<sel, R>> : R \in IF removeEdges THEN SUBSET EdgeReps(s) ELSE {EdgeReps(s)}}
         : sel \in Selections(st, removable)}

(***************************************************************************)
(* The graph whose nodes are the node-layers                               *)
(***************************************************************************)
Underlying(st) ==
  LET one(a) == <<a>>
  IN  [NewNet("ml", 0, st.dir, TRUE, st.noedge, <<>>) EXCEPT
         !.el = <<NodeLayers(st)>>,
         !.e = [p \in {<<one(q[1]), one(q[2])>> : q \in EdgePairs(st)} |-> Link(st, p[1][1], p[2][1])]]

(***************************************************************************)
(* Randomly permuting the nodes of every layer: t is a possible result     *)
(***************************************************************************)
LayerEdges(st, l) == {<<q[1][1], q[2][1], st.e[q]>> : q \in {p \in DOMAIN st.e : Tail(p[1]) = l}}
Bijections(S) == {f \in [S -> S] : \A x, y \in S : x # y => f[x] # f[y]}
PermutedLayer(st, t, l) ==
  /\ NodesIn(st, l) = NodesIn(t, l)
  /\ \E f \in Bijections(NodesIn(st, l)) :
        {<<f[x[1]], f[x[2]], x[3]>> : x \in LayerEdges(st, l)} = LayerEdges(t, l)
Permuted(st, t) ==
  /\ SameConfig(st, t) /\ st.el = t.el /\ NodeLayers(st) = NodeLayers(t)
  /\ \A l \in LayerTuples(st.el) : PermutedLayer(st, t, l)
=============================================================================
