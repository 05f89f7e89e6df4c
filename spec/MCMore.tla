-------------------------------- MODULE MCMore --------------------------------
(***************************************************************************)
(* Laws of the file formats, the random models, the figures and the        *)
(* layouts, model checked on every state that MCNet reaches.               *)
(***************************************************************************)
EXTENDS MCNet

F == INSTANCE MLFiles
R == INSTANCE MLModels
G == INSTANCE MLDraw
Y == INSTANCE MLLayout

N == NodeLayers(net)
Sorted(S) == SortSeq(SetToSeq(S), LAMBDA x, y : x < y)
Rev(s) == [i \in DOMAIN s |-> s[1 + Len(s) - i]]

(* ------------------------------ file formats ----------------------------- *)
\* the document of a network without self-links: what it says between different nodes of a layer
At(v, l) == IF ASP = 0 THEN <<v>> ELSE <<v, l>>
Cell(l, a, b) == IF a = b THEN 0 ELSE LET w == Link(net, At(a, l), At(b, l)) IN IF w = NOEDGE THEN 0 ELSE w
Doc(rows, cols, lays, half) ==
  [rl |-> rows, cl |-> cols, ll |-> lays, full |-> FULL, coup |-> IF KIND = "mx" THEN net.coup[1] ELSE [t |-> "none", w |-> 0],
   m |-> [k \in 1..Len(lays) |-> [i \in 1..Len(rows) |-> [j \in 1..Len(cols) |-> IF half /\ i < j THEN 0 ELSE Cell(lays[k], rows[i], cols[j])]]]]
\* C32: the square matrices say what the network is; so do their halves, and the order of the labels does not matter
LawC32 ==
  (ASP = 0 \/ Cardinality(net.el[2]) > 1) =>
  LET ns == Sorted(net.el[1])
      ls == IF ASP = 0 THEN <<0>> ELSE Sorted(net.el[2])
      d == F!DocNet(Doc(ns, ns, ls, FALSE))
      intra == {p \in DOMAIN net.e : p[1] # p[2]} IN
  /\ StateInv(d)
  /\ DOMAIN d.e = intra /\ \A p \in intra : d.e[p] = net.e[p]
  /\ FULL => d.el = net.el
  /\ ~FULL => NodeLayers(d) = {p[1] : p \in intra}
  /\ F!DocNet(Doc(ns, ns, ls, TRUE)) = d
  /\ F!DocNet(Doc(Rev(ns), ns, ls, FALSE)) = d
  /\ F!DocNet(Doc(ns, Rev(ns), Rev(ls), FALSE)) = d
\* C33: rows in any order, one or two for an edge, build the same edges; self-links are ignored
RowsOf(prs) == LET s == SetToSeq(prs) IN [i \in DOMAIN s |-> <<s[i][1][2], s[i][1][1], s[i][2][1], net.e[s[i]]>>]
LawC33 ==
  LET all == {p \in DOMAIN net.e : p[1] # p[2]}
      some == IF DIR THEN all ELSE {p \in all : p[1][1] < p[2][1]}
      r == F!Rows(New(Cfg), RowsOf(some)) IN
  /\ DOMAIN r.e = all /\ \A p \in all : r.e[p] = net.e[p]
  /\ StateInv(r)
  /\ F!Rows(New(Cfg), Rev(RowsOf(some))) = r
  /\ F!Rows(New(Cfg), RowsOf(all)) = r
  /\ F!Rows(r, RowsOf(some)) = r
  /\ F!Rows(r, <<<<0, 0, 0, 3>>>>) = r

(* ----------------------------- random models ----------------------------- *)
\* C22: a layer is a possible outcome for exactly one number of edges; nothing and everything for p = 0 and p = 1
LawC22 ==
  \A l \in LayerTuples(net.el) :
    LET E == {x \in R!LayerLinks(net, l) : Cardinality(x) = 2} NN1 == net.el[1] IN
    /\ Cardinality({m \in 0..10 : R!ERLayer(E, NN1, "edges", m)}) = 1
    /\ R!ERLayer(E, NN1, "p0", 0) = R!ERLayer(E, NN1, "edges", 0)
    /\ R!ERLayer(E, NN1, "p1", 0) = R!ERLayer(E, NN1, "edges", Cardinality(R!NodePairs(NN1)))
    /\ R!ERLayer(E, NN1, "p", 0)
\* C23: degrees and their distribution say the same; their sum is even
LawC23 ==
  \A l \in LayerTuples(net.el) :
    LET E == {x \in R!LayerLinks(net, l) : Cardinality(x) = 2}
        d == [i \in net.el[1] |-> R!DegIn(E, i)]
        H == [k \in {d[i] : i \in DOMAIN d} |-> Cardinality({i \in DOMAIN d : d[i] = k})] IN
    /\ R!DegreesAre(E, d) /\ R!DistributionIs(E, net.el[1], H)
    /\ SumPairs({<<i, d[i]>> : i \in DOMAIN d}) = 2 * Cardinality(E)
    /\ \A i \in DOMAIN d : ~R!DegreesAre(E, [d EXCEPT ![i] = @ + 1]) /\ d[i] < Cardinality(net.el[1])
\* C24: every pair of nodes is linked in exactly one set of layers
LawC24 ==
  ASP = 1 =>
    LET P == [S \in SUBSET net.el[2] |-> R!ExactlyIn(net, S)] IN
    /\ UNION {P[S] : S \in DOMAIN P} = R!NodePairs(net.el[1])
    /\ \A S, T \in DOMAIN P : S # T => P[S] \cap P[T] = {}
    /\ \A k \in net.el[2] : {x \in R!LayerLinks(net, <<k>>) : Cardinality(x) = 2} = UNION {P[S] : S \in {T \in DOMAIN P : k \in T}}

(* -------------------------------- figures -------------------------------- *)
\* every way of asking for a property: dictionaries, rules, modifiers
Dicts(its) == {<<>>} \cup {<<<<it, G!Tag(1)>>>> : it \in its}
NumRules == {[rule |-> "degree"], [rule |-> "degree", f |-> "inc"], [rule |-> "degree", f |-> "inc", scaleby |-> 120]}
EdgeRules == {<<>>, [rule |-> "edgeweight"], [rule |-> "edgetype", intra |-> G!Tag(2)], [rule |-> "edgetype", inter |-> G!Tag(2)],
              [rule |-> "layer"], [rule |-> "edgeweight", f |-> "inc"]}
Flip(e) == <<e[2], e[1]>>
LawC38 ==
  ASP = 1 =>
    LET E == EdgePairs(net) L == LayerTuples(net.el) IN
    \* dictionary, then rule, then default
    /\ \A e \in E, r \in EdgeRules : \A d \in Dicts(E) :
         LET P == [dict |-> d, rule |-> r, def |-> G!Tag(0)]
             v == G!Val(net, "edge", P, e)
             listed == d # <<>> /\ (d[1][1] = e \/ (~DIR /\ d[1][1] = Flip(e))) IN
         /\ listed => v = G!Tag(1)
         /\ ~listed => v = G!Val(net, "edge", [P EXCEPT !.dict = <<>>], e)
         /\ (~listed /\ r = <<>>) => v = G!Tag(0)
         /\ ~DIR => G!Val(net, "edge", P, Flip(e)) = v     \* a direction makes no difference
    /\ \A a \in N : G!Val(net, "node", [dict |-> <<>>, rule |-> [rule |-> "degree", f |-> "inc", scaleby |-> 120], def |-> G!Tag(0)], a)
                    = G!Num(120 * (1 + DegView(net, a, "tot", NoDims(net))))
    /\ \A a \in N : G!Val(net, "node", [dict |-> <<>>, rule |-> [rule |-> "order"], def |-> G!Tag(0)], a)[2] = {G!Num(60 * i) : i \in 0..(Cardinality(N) - 1)}
    \* orders of the layers: all the permutations that respect the keys
    /\ G!Orders(net, [dict |-> <<>>, rule |-> <<>>, def |-> G!Num(0)]) = {s \in [1..Cardinality(L) -> L] : IsInjective(s)}
    /\ Cardinality(G!Orders(net, [dict |-> <<>>, rule |-> [rule |-> "name"], def |-> G!Num(0)])) = 1
    \* what is drawn stays on its layer, in the order of the coordinates
    /\ DOMAIN net.e = {} =>
       LET pos == {0, 24, 60}
       IN  \A xs \in [N -> pos] : \A sz \in {0, 12} : \A pad \in {6, 12} :
             LET s == [a \in N |-> sz]
                 q == [a \in N |-> G!Scale(xs, s, pad, xs[a])] IN
             \A a \in N : /\ q[a][1] > 0 /\ q[a][1] < q[a][2]
                          /\ \A b \in N : xs[a] < xs[b] <=> q[a][1] * q[b][2] < q[b][1] * q[a][2]

(* -------------------------------- layouts -------------------------------- *)
LawC39 ==
  ASP = 1 =>
    \A al \in {TRUE, FALSE} :
      LET K == Y!Keys(net, al) IN
      /\ \A a, b \in K : a # b => /\ Y!Together(net, al, a, b) = Y!Together(net, al, b, a)
                                  /\ Y!Springs(net, al, a, b) = Y!Springs(net, al, b, a)
                                  /\ Y!Springs(net, al, a, b) >= 0
      /\ (al /\ ~net.full) => \A a, b \in K : a # b => Y!Together(net, TRUE, a, b) =
            Cardinality({l \in LayerTuples(net.el) : Y!Together(net, FALSE, a \o l, b \o l) = 1 /\ {a \o l, b \o l} \subseteq N})
      \* forces: action and reaction, up to rounding; two that are not together and not linked do not meet
      /\ K # {} =>
         \A sh \in 0..2 :
         LET ks == SetToSeq(K)
             cc == [a \in K |-> LET i == CHOOSE j \in DOMAIN ks : ks[j] = a IN <<(i * 170) % 700, ((i + sh) * (i + sh) * 110) % 900>>]
             apart == \A a, b \in K : a # b => Y!Dist2(cc[a], cc[b]) > 900
             bx == <<1000, 2000>> IN
         /\ apart => \A k \in 1..2 : Y!Abs(Y!SumIn(K, LAMBDA a : Y!Force(net, al, cc, 500, a, k))) <= 3 * Cardinality(K) * Cardinality(K)
         /\ \A fx \in {{}, {ks[1]}} :
              LET o == Y!Boxed(cc, bx, fx) IN
              /\ \A a \in K : IF a \in fx THEN o[a] = cc[a] ELSE \A k \in 1..2 : 0 <= o[a][k] /\ o[a][k] <= bx[k]
              /\ \A a, b \in K \ fx : \A k \in 1..2 : cc[a][k] <= cc[b][k] => o[a][k] <= o[b][k]
=============================================================================
