---------------------------- MODULE MLClustering -----------------------------
(***************************************************************************)
(* Clustering coefficients of monoplex and multiplex networks.             *)
(*                                                                         *)
(* A coefficient is a pair <<numerator, denominator>>; the denominator 0   *)
(* means undefined.  Multiplex clustering is defined by counting closed    *)
(* walks on the node-layers: an "a" step follows an intra-layer edge, a    *)
(* "c" step a coupling edge, and an "f" step goes to any other node-layer  *)
(* of the same layer.                                                      *)
(***************************************************************************)
EXTENDS MLBase

\* w * 10^6 of a nonnegative fraction, digit by digit (TLC's integers have 32 bits)
RECURSIVE Digits(_, _, _, _)
Digits(r, d, k, acc) == IF k = 0 THEN acc ELSE Digits((10 * r) % d, d, k - 1, 10 * acc + ((10 * r) \div d))
Fx(q) == IF q[2] = 0 THEN 0 ELSE Digits(q[1] % q[2], q[2], 6, q[1] \div q[2])
Close(v, q) == Abs(v - Fx(q)) <= 3

W(st, a, b) == IF HasEdge(st, a, b) THEN Link(st, a, b) ELSE 0
Sum(S, f(_)) == MapThenSumSet(f, S)

(* ------------------------------------------------- monoplex (undirected) *)
Pairs(N) == {<<j, h>> \in N \X N : j # h}
Neigh(st, i) == {b \in NodeLayers(st) : HasEdge(st, i, b)}
MaxW(st) == Max({0} \cup {Link(st, p[1], p[2]) : p \in DOMAIN st.e})
MinDeg2(st, i, q) == IF Cardinality(Neigh(st, i)) < 2 THEN <<0, 0>> ELSE q
Lcc(st, i) ==
  LET P == Pairs(Neigh(st, i)) IN MinDeg2(st, i, <<Cardinality({p \in P : HasEdge(st, p[1], p[2])}), Cardinality(P)>>)
ZhangNum(st, i) == Sum(Pairs(Neigh(st, i)), LAMBDA p : W(st, i, p[1]) * W(st, i, p[2]) * W(st, p[1], p[2]))
ZhangDen(st, i) == MaxW(st) * Sum(Pairs(Neigh(st, i)), LAMBDA p : W(st, i, p[1]) * W(st, i, p[2]))
Zhang(st, i) == MinDeg2(st, i, <<ZhangNum(st, i), ZhangDen(st, i)>>)
GlobalZhang(st) == <<Sum(NodeLayers(st), LAMBDA i : ZhangNum(st, i)), Sum(NodeLayers(st), LAMBDA i : ZhangDen(st, i))>>
Root3(c) == CHOOSE r \in 0..10 : r * r * r = c
Onnela(st, i) ==
  MinDeg2(st, i, LET k == Cardinality(Neigh(st, i))
                 IN  <<Sum(Pairs(Neigh(st, i)), LAMBDA p : Root3(W(st, i, p[1])) * Root3(W(st, i, p[2])) * Root3(W(st, p[1], p[2]))),
                       MaxW(st) * k * (k - 1)>>)
Barrat(st, i) ==
  MinDeg2(st, i, LET k == Cardinality(Neigh(st, i))
                 IN  <<Sum(Pairs(Neigh(st, i)), LAMBDA p : IF HasEdge(st, p[1], p[2]) THEN W(st, i, p[1]) + W(st, i, p[2]) ELSE 0),
                       2 * Sum(Neigh(st, i), LAMBDA b : W(st, i, b)) * (k - 1)>>)

(* ---------------------------------------------- walks on the node-layers *)
Intra(st) == TLCEval([v \in NodeLayers(st) |-> {p[2] : p \in {q \in DOMAIN st.e : q[1] = v}}])
Coup(st) == TLCEval([v \in NodeLayers(st) |-> {b \in NodeLayers(st) : b[1] = v[1] /\ b # v /\ HasEdge(st, v, b)}])
Fullc(st) == TLCEval([v \in NodeLayers(st) |-> {b \in NodeLayers(st) : Tail(b) = Tail(v) /\ b # v}])
Step(N, f) == TLCEval([b \in DOMAIN N |-> Sum(N[b], LAMBDA c : f[c])])     \* the relations are symmetric

Words == <<"aaa", "aacac", "acaac", "acaca", "acacac", "afa", "afcac", "acfac", "acfca", "acfcac">>
\* the numbers of closed walks from v, in the order of Words
CycleVector(A, C, Fu, v) ==
  LET s    == [b \in DOMAIN A |-> IF b = v THEN 1 ELSE 0]
      a    == Step(A, s)        ac   == Step(C, a)      aa  == Step(A, a)
      aac  == Step(C, aa)       aaca == Step(A, aac)
      aca  == Step(A, ac)       acaa == Step(A, aca)    acac == Step(C, aca)   acaca == Step(A, acac)
      af   == Step(Fu, a)       afc  == Step(C, af)     afca == Step(A, afc)
      acf  == Step(Fu, ac)      acfa == Step(A, acf)    acfc == Step(C, acf)   acfca == Step(A, acfc)
  IN <<Step(A, aa)[v], Step(C, aaca)[v], Step(C, acaa)[v], acaca[v], Step(C, acaca)[v],
       Step(A, af)[v], Step(C, afca)[v], Step(C, acfa)[v], acfca[v], Step(C, acfca)[v]>>
AllCycles(st) ==
  LET A == Intra(st) C == Coup(st) Fu == Fullc(st)
  IN  TLCEval([v \in NodeLayers(st) |-> CycleVector(A, C, Fu, v)])
Zero10 == [i \in 1..10 |-> 0]
\* the sum of the vectors over a set of node-layers
SumVec(cy, S) == TLCEval([i \in 1..10 |-> Sum(S \cap DOMAIN cy, LAMBDA v : cy[v][i])])

\* triangles and triples within a layer, over two layers, and over three layers
T3(x) == <<x[1], x[2] + x[3] + x[4], x[5]>>
D3(x) == <<x[6], x[7] + x[8] + x[9], x[10]>>
CVec(x) == [i \in 1..3 |-> <<T3(x)[i], D3(x)[i]>>]
\* the cost version with weights a (staying) and b (changing the layer)
Cost(x, a, b) ==
  LET s(y) == y[1] * a * a * a + y[2] * a * b * b + y[3] * b * b * b IN <<s(T3(x)), s(D3(x))>>
\* weights of the three classes, in quarters
Weighted(x, w) == (w[1] * Fx(CVec(x)[1]) + w[2] * Fx(CVec(x)[2]) + w[3] * Fx(CVec(x)[3])) \div 4
\* (the walks that start with a coupling step counted as well)
MorenoVec(x) == <<x[1], 2 * x[2] + 2 * x[3] + x[4], 2 * x[5], x[6], 2 * x[7] + 2 * x[8] + x[9], 2 * x[10]>>
MVec(x) == LET m == MorenoVec(x) IN [i \in 1..3 |-> <<m[i], m[i+3]>>]
Weighted2(x, w) == (w[1] * Fx(MVec(x)[1]) + w[2] * Fx(MVec(x)[2]) + w[3] * Fx(MVec(x)[3])) \div 4
CostM(x, a, b) ==
  LET m == MorenoVec(x)
  IN  <<m[1] * a * a * a + m[2] * a * b * b + m[3] * b * b * b, m[4] * a * a * a + m[5] * a * b * b + m[6] * b * b * b>>

(* ------------------------------------------------ supra and layer graphs *)
\* node-layer pairs linked by an intra-layer or coupling edge
Triangles(st, Ed, v) == Cardinality({p \in Pairs(Ed[v]) : p[2] \in Ed[p[1]]})
Triples(Ed, v) == Cardinality(Ed[v]) * (Cardinality(Ed[v]) - 1)
Transitivity(st, Ed) == <<Sum(DOMAIN Ed, LAMBDA v : Triangles(st, Ed, v)), Sum(DOMAIN Ed, LAMBDA v : Triples(Ed, v))>>
Supra(st) == LET A == Intra(st) C == Coup(st) IN TLCEval([v \in DOMAIN A |-> A[v] \cup C[v]])

(* ------------------------------------- coefficients of multiplex networks *)
\* intra-layer weight between two nodes on layer l, and summed over the layers
WL(st, i, j, l) == W(st, <<i, l>>, <<j, l>>)
AL(st, i, j, l) == IF <<<<i, l>>, <<j, l>>>> \in DOMAIN st.e THEN 1 ELSE 0
Agg(st) == TLCEval([i \in st.el[1] |-> TLCEval([j \in st.el[1] |-> Sum(st.el[2], LAMBDA l : WL(st, i, j, l))])])
Barrett(st, g, i) ==
  LET N == st.el[1]
  IN  <<Sum(N, LAMBDA j : Sum(N, LAMBDA h : g[i][j] * g[i][h] * g[j][h])),
        Sum(N, LAMBDA j : Sum(N, LAMBDA h : g[i][j] * Sum(st.el[2], LAMBDA l : Max2(WL(st, i, h, l), WL(st, j, h, l)))))>>
Brodka(st, g, i, t) ==
  LET N == {j \in st.el[1] : Sum(st.el[2], LAMBDA l : AL(st, i, j, l)) >= Max2(t, 1)}
  IN  <<Sum(N, LAMBDA v : Sum(N, LAMBDA h : g[h][v] + g[v][h])), 2 * Cardinality(N) * Cardinality(st.el[2])>>
\* walks u - v on layer x, v - h on y, h - u on z
BatNum(st, u, L3) ==
  Sum(st.el[1] \ {u}, LAMBDA v : Sum(st.el[1] \ {u}, LAMBDA h : Sum(L3, LAMBDA q : AL(st, u, v, q[1]) * AL(st, v, h, q[2]) * AL(st, h, u, q[3]))))
BatDen(st, u, L2) ==
  Sum(st.el[1] \ {u}, LAMBDA v : Sum(st.el[1] \ {u}, LAMBDA h : Sum(L2, LAMBDA q : AL(st, u, v, q[1]) * AL(st, h, u, q[2]))))
Battiston1(st, u) ==
  LET L == st.el[2]
  IN  <<BatNum(st, u, {q \in L \X L \X L : q[1] = q[3] /\ q[1] # q[2]}),
        (Cardinality(L) - 1) * BatDen(st, u, {<<l, l>> : l \in L})>>
Battiston2(st, u) ==
  LET L == st.el[2]
  IN  IF Cardinality(L) < 3 THEN <<0, 0>>
      ELSE <<BatNum(st, u, {q \in L \X L \X L : q[1] # q[2] /\ q[1] # q[3] /\ q[2] # q[3]}),
             (Cardinality(L) - 2) * BatDen(st, u, {q \in L \X L : q[1] # q[2]})>>
Criado(st, u) ==
  LET nu == {j \in st.el[1] : \E l \in st.el[2] : AL(st, u, j, l) = 1}
      on(l) == {j \in nu : <<j, l>> \in NodeLayers(st)}
  IN  <<Sum(st.el[2], LAMBDA l : Cardinality({p \in on(l) \X on(l) : AL(st, p[1], p[2], l) = 1})),
        Sum(st.el[2], LAMBDA l : Cardinality(on(l)) * (Cardinality(on(l)) - 1))>>

(* contractions: triangles and paths of length two, weights multiplied *)
ContractionSupra(st) ==
  LET V == NodeLayers(st) Ed == Supra(st)
      w(a, b) == Link(st, a, b)
  IN  <<Sum(V, LAMBDA a : Sum(Ed[a], LAMBDA b : Sum(Ed[b] \cap Ed[a], LAMBDA c : w(a, b) * w(b, c) * w(c, a)))),
        Sum(V, LAMBDA a : Sum(Pairs(Ed[a]), LAMBDA p : w(a, p[1]) * w(a, p[2])))>>
ContractionAgg(st, g) ==
  LET N == st.el[1]
  IN  <<Sum(N, LAMBDA a : Sum(N, LAMBDA b : Sum(N, LAMBDA c : g[a][b] * g[b][c] * g[c][a]))),
        Cardinality(st.el[2]) * Sum(N, LAMBDA a : Sum(Pairs(N), LAMBDA p : g[a][p[1]] * g[a][p[2]]))>>
=============================================================================
