-------------------------------- MODULE MCLaws --------------------------------
(***************************************************************************)
(* Laws of the functions of networks (the oracle of the conformance        *)
(* checks), model checked on every state that MCNet reaches.  They do not  *)
(* define the functions; they say what a user may conclude from them.      *)
(***************************************************************************)
EXTENDS MCNet

X == INSTANCE MLTransforms
D == INSTANCE MLDiagnostics
I == INSTANCE MLIso
M == INSTANCE MLMatrix
S == INSTANCE MLSampling
C == INSTANCE MLClustering

N == NodeLayers(net)
TotalW(st) == SumPairs(EdgeValues(st))
Aspects == 0..ASP
Sub(A) == SUBSET A

\* C09: symmetry, and rows sum up to strengths (no-edge values count as zero)
LawC09 ==
  \A inter \in BOOLEAN : \A a, b \in Product(net.el) :
    /\ ~DIR => M!SupraEntry(net, a, b, inter) = M!SupraEntry(net, b, a, inter)
    /\ (a \notin N => M!SupraEntry(net, a, b, inter) = 0)
    /\ inter /\ a \in N => StrOut(net, a, NoDims(net)) = SumPairs({<<x, M!SupraEntry(net, a, x, TRUE)>> : x \in Product(net.el)})
\* C10: aggregation keeps the total weight, can be done in steps, and over nothing changes nothing
LawC10 ==
  /\ \A A \in Sub(Aspects) : A # Aspects =>
       LET g == X!Aggregate(net, A, TRUE) IN
       /\ NOEDGE = 0 => TotalW(g) = TotalW(net)
       /\ StateInv(g)
       /\ g.asp = ASP - Cardinality(A)
       /\ NOEDGE = 0 => \A k \in Aspects \ A :
            LET B == A \cup {k} IN
            B # Aspects => X!Aggregate(net, B, TRUE) = X!Aggregate(g, {k - Cardinality({x \in A : x < k})}, TRUE)
  /\ LET g == X!Aggregate(net, {}, TRUE) IN EdgeValues(g) = EdgeValues(net) /\ NodeLayers(g) = N
  /\ (ASP = 1 /\ NOEDGE = 0 /\ KIND = "mx") =>
       X!Overlay(net).e = X!Aggregate(net, {1}, FALSE).e
\* C11: subnetworks: of everything, of nothing, of subnetworks
Sels == LET P == [k \in DOMAIN net.el |-> SUBSET net.el[k]]
        IN  CASE ASP = 0 -> {<<x>> : x \in P[1]} [] ASP = 1 -> {<<x, y>> : x \in P[1], y \in P[2]}
              [] ASP = 2 -> {<<x, y, z>> : x \in P[1], y \in P[2], z \in P[3]}
Meet(s, t) == [k \in DOMAIN s |-> s[k] \cap t[k]]
Trim(st) == IF st.full THEN st ELSE [st EXCEPT !.el[1] = {a[1] : a \in st.nl}]
LawC11 ==
  /\ X!Subnet(net, net.el, FALSE) = Trim(net)
  /\ \A s \in Sels : LET g == X!Subnet(net, s, FALSE) IN
       /\ StateInv(g)
       /\ \A a, b \in NodeLayers(g) : Link(g, a, b) = Link(net, a, b)
       /\ \A t \in Sels : X!Subnet(g, t, FALSE) = X!Subnet(net, Meet(s, t), FALSE)
\* C12: renaming back gives the network; renaming is an isomorphism; normalizing twice is normalizing once
Shift == [k \in DOMAIN net.el |-> [x \in net.el[k] |-> 10 + (2 * x)]]
Back == [k \in DOMAIN net.el |-> [x \in {10 + (2 * y) : y \in net.el[k]} |-> (x - 10) \div 2]]
LawC12 ==
  LET r == X!Relabel(net, Shift)
      n == X!Relabel(net, X!NormMaps(net, 0, 0)) IN
  /\ X!Relabel(r, Back) = net
  /\ X!Relabel(n, X!NormMaps(n, 0, 0)) = n
  /\ X!Relabel(r, X!NormMaps(r, 0, 0)).e = n.e
  /\ \A a \in N : \A m \in {"out", "in", "tot"} :
       COUP # "ord" => DegView(net, a, m, NoDims(net)) = DegView(r, X!RenNL(Shift, a), m, NoDims(r))
\* C13: the edges that pass a comparison and those that fail it are the edges
LawC13 ==
  \A t \in -1..3 :
    LET g == X!Threshold(net, ">=", t) h == X!Threshold(net, "<", t) IN
    /\ EdgeValues(g) \cap EdgeValues(h) = {}
    /\ EdgeValues(g) \cup EdgeValues(h) = EdgeValues(net)
    /\ NodeLayers(g) = N
    /\ X!Threshold(g, ">=", t) = g
    /\ EdgeValues(X!Threshold(net, ">", t)) \subseteq EdgeValues(g)
\* C14: the number of subnetworks
RECURSIVE ProdOf(_)
ProdOf(s) == IF s = {} THEN 1 ELSE LET x == CHOOSE x \in s : TRUE IN ((2^Cardinality(net.el[x + 1])) - 1) * ProdOf(s \ {x})
LawC14 ==
  \A R \in Sub(Aspects) :
    /\ Cardinality(X!AllSubnets(net, R, FALSE)) = ProdOf(R)
    /\ R = {} => Cardinality(X!AllSubnets(net, R, TRUE)) = 2^Cardinality(X!EdgeReps(net))
    /\ Cardinality(X!EdgeReps(net)) = NumEdges([net EXCEPT !.kind = "ml"])
\* C15: the underlying graph has the degrees and strengths of the node-layers
LawC15 ==
  LET g == X!Underlying(net) IN
  /\ StateInv(g) /\ NumEdges(g) = NumEdges(net) /\ TotalW(g) = TotalW(net)
  /\ \A a \in N : \A m \in {"out", "in", "tot"} :
       /\ DegView(g, <<a>>, m, <<ANY>>) = DegView(net, a, m, NoDims(net))
       /\ StrView(g, <<a>>, m, <<ANY>>) = StrView(net, a, m, NoDims(net))
\* C16: being a permutation of the layers is an equivalence that keeps degree sequences
LawC16 ==
  /\ X!Permuted(net, net)
  /\ \A f \in X!Bijections(net.el[1]) :
       (\A l \in LayerTuples(net.el) : \A n \in NodesIn(net, l) : f[n] \in NodesIn(net, l)) =>
         LET t == [net EXCEPT !.e = [p \in {<<<<f[q[1][1]]>> \o Tail(q[1]), <<f[q[2][1]]>> \o Tail(q[2])>> : q \in DOMAIN net.e} |->
                     net.e[CHOOSE q \in DOMAIN net.e : p = <<<<f[q[1][1]]>> \o Tail(q[1]), <<f[q[2][1]]>> \o Tail(q[2])>>]]]
         IN  X!Permuted(net, t) /\ X!Permuted(t, net)
\* C18: distributions count every node-layer; handshake; densities are at most one
LawC18 ==
  LET P == D!DegNodes(net, N)
      H == D!Distribution(P)
      selfs == {p \in EdgePairs(net) : p[1] = p[2]} IN
  /\ SumPairs(H) = Cardinality(N)
  /\ ~DIR => SumPairs({<<h, h[1] * h[2]>> : h \in H}) + Cardinality(selfs) = 2 * NumEdges(net)
  /\ selfs = {} => LET q == D!Density(net) IN q[1] <= q[2] /\ q[1] >= 0
\* C19: the overlap degrees of a node add up to its neighbours
LawC19 ==
  ASP = 1 =>
    \A i \in net.el[1] :
      SumPairs({<<T, D!OverlapDeg(net, T, i)>> : T \in SUBSET net.el[2]}) = Cardinality(net.el[1] \ {i})
\* C20: distances: sources, edges, several sources, and a shortest path to everything reached
LawC20 ==
  (\A p \in EdgePairs(net) : Link(net, p[1], p[2]) >= 0) =>
  \A a, b \in N :
    LET da == TLCEval(D!Dist(net, {a})) db == TLCEval(D!Dist(net, {b})) dd == TLCEval(D!Dist(net, {a, b}))
        T == D!Tight(net, dd) IN
    /\ dd[a] = 0 /\ dd[b] = 0
    /\ \A x \in N : dd[x] = Min2(da[x], db[x])
    /\ \A x \in N : db[x] < D!FAR => da[x] <= da[b] + db[x]
    /\ ~DIR => da[b] = db[a]
    /\ \A x \in D!Reached(dd) : dd[x] = 0 \/ \E q \in T : q[2] = x
    /\ \A p \in EdgePairs(net) : dd[p[1]] < D!FAR => dd[p[2]] <= dd[p[1]] + Link(net, p[1], p[2])
\* C21, C25: isomorphism is reflexive, invariant under renaming, and the automorphisms form a group
LawC21 ==
  \A A \in Sub(Aspects) :
    LET auts == TLCEval(I!Isomorphisms(net, net, A))
        r == X!Relabel(net, Shift) IN
    /\ [k \in DOMAIN net.el |-> [x \in net.el[k] |-> x]] \in auts
    /\ \A f, g \in auts : [k \in DOMAIN f |-> [x \in DOMAIN f[k] |-> g[k][f[k][x]]]] \in auts
    /\ \A f \in auts : I!IsIsomorphism(net, net, f)
    /\ (A = Aspects /\ KIND = "ml") => I!Isomorphic(net, r, A) /\ I!Isomorphic(r, net, A)
                        /\ Cardinality(I!Isomorphisms(net, r, A)) = Cardinality(auts)
    /\ \A B \in Sub(A) : I!Isomorphisms(net, net, B) \subseteq auts
\* C26: a subgraph that meets strict requirements meets relaxed ones; inclusion and exclusion
LawC26 ==
  ASP = 1 =>
    LET E == EdgePairs(net) IN
    \A Ns \in SUBSET net.el[1], Ls \in SUBSET net.el[2] :
      /\ S!Relaxed(net, E, Ns, Ls) => S!Induced(net, Ns, Ls) # {}
      /\ Cardinality(Ls) = 2 =>
         \A s1, s2 \in 0..2, i \in 0..2 :
           LET inter == [T \in S!Subsets2(2) |-> i] sz == <<s1, s2>> IN
           /\ S!Required(net, E, Ns, Ls, sz, inter, "strict") => S!Required(net, E, Ns, Ls, sz, inter, "lenient")
           /\ S!Required(net, E, Ns, Ls, sz, inter, "strict") => S!RequiredNodes(sz, inter) = Cardinality(Ns)
           /\ S!Required(net, E, Ns, Ls, sz, inter, "strict") = S!Required(net, E, Ns, Ls, <<s2, s1>>, inter, "strict")
\* C29: coefficients are between zero and one, and equal on unit weights
Ratio01(q) == q[2] = 0 \/ (0 <= q[1] /\ q[1] <= q[2])
LawC29 ==
  (ASP = 0 /\ ~DIR /\ \A p \in DOMAIN net.e : net.e[p] > 0 /\ p[1] # p[2]) =>
    \A i \in N :
      LET q == C!Lcc(net, i) unit == \A p \in DOMAIN net.e : net.e[p] = 1 IN
      /\ Ratio01(q) /\ Ratio01(C!Zhang(net, i)) /\ Ratio01(C!Barrat(net, i))
      /\ unit => /\ q[1] * C!Zhang(net, i)[2] = q[2] * C!Zhang(net, i)[1]
                 /\ q[1] * C!Barrat(net, i)[2] = q[2] * C!Barrat(net, i)[1]
                 /\ q[1] * C!Onnela(net, i)[2] = q[2] * C!Onnela(net, i)[1]
\* C30: closed walks: the denominators bound the numerators, triangles are seen from three corners
LawC30 ==
  (KIND = "mx" /\ ASP = 1 /\ ~DIR) =>
    LET cy == TLCEval(C!AllCycles(net)) IN
    /\ \A v \in N : \A i \in 1..5 : 0 <= cy[v][i] /\ cy[v][i] <= cy[v][i + 5]
    /\ C!SumVec(cy, N)[1] % 6 = 0
    /\ C!SumVec(cy, N)[2] = C!SumVec(cy, N)[3]
    /\ (\A p \in EdgePairs(net) : p \in DOMAIN net.e) => \A v \in N : \A i \in {2, 3, 4, 5} : cy[v][i] = 0
    /\ (net.full /\ Cardinality(net.el[2]) = 1) => \A v \in N : cy[v][1] = C!Lcc(X!Subnet(X!AsMultilayer(net), net.el, FALSE), v)[1] \/ C!Lcc(net, v)[2] = 0
\* C31: the supra-graph transitivity is a fraction; unit-weight aggregate bounds
LawC31 ==
  (KIND = "mx" /\ ASP = 1 /\ ~DIR) =>
    /\ Ratio01(C!Transitivity(net, C!Supra(net)))
    /\ \A u \in net.el[1] : Ratio01(C!Criado(net, u)) /\ Ratio01(C!Battiston1(net, u)) /\ Ratio01(C!Battiston2(net, u))
=============================================================================
