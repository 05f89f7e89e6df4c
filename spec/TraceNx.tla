------------------------------ MODULE TraceNx --------------------------------
(***************************************************************************)
(* Recorded use of the NetworkX view and of NetworkX functions (C34).      *)
(***************************************************************************)
EXTENDS TraceBase, MLNx

Snap(pre, st, o) ==
  UNION {
    Is(pre \o "-net-nodes", SameBag(o.nodes, Nodes(st)), o.nodes),
    Is(pre \o "-net-edges", Len(o.edges) = Cardinality(UEdges(st))
         /\ {<<{y[1], y[2]}, y[3]>> : y \in Range(o.edges)} = {<<s, WtOf(st, s)>> : s \in UEdges(st)}, o.edges),
    Is(pre \o "-view-nodes", SameBag(o.vnodes, Nodes(st)) /\ o.vlen = Cardinality(Nodes(st)), o.vnodes),
    Is(pre \o "-view-adjacency", SameBag(o.vadj, Adj(st)), <<o.vadj, Adj(st)>>),
    Is(pre \o "-view-edges", Len(o.vedges) = Cardinality(UEdges(st))
         /\ {<<{y[1], y[2]}, y[3]>> : y \in Range(o.vedges)} = {<<s, WtOf(st, s)>> : s \in UEdges(st)}, o.vedges),
    Is(pre \o "-view-degree", {<<y[1], y[2]>> : y \in Range(o.vdeg)} = {<<a, Cardinality(NbN(st, a)) + (IF Has(st, a, a) THEN 1 ELSE 0)>> : a \in Nodes(st)}, o.vdeg),
    Is(pre \o "-view-size", o.size = <<Cardinality(UEdges(st)), MapThenSumSet(LAMBDA s : WtOf(st, s), UEdges(st))>>, o.size),
    Is(pre \o "-view-attributes", \A y \in Range(o.vattr) : y = <<1, 1, 0>>, o.vattr),
    Is(pre \o "-net-degree", SameBag(o.ndeg, {<<a, Cardinality(NbN(st, a) \cup {b \in {a} : Has(st, a, a)})>> : a \in Nodes(st)}), o.ndeg),
    Is(pre \o "-view-has", {<<y[1], y[2]>> : y \in Range(o.has)} = {<<t[1], t[2]>> : t \in {u \in Adj(st) : TRUE}}, o.has)}

\* a returned graph: [net: is it a network of this library, nodes, adj]
Graph(clause, g, N, A) ==
  IF g.net # 1 THEN {F(clause \o "-class", g)}
  ELSE UNION {Is(clause \o "-nodes", SameBag(g.nodes, N), <<g, N>>),
              Is(clause \o "-degrees", Range(g.deg) = {<<a, Cardinality({t \in A : t[1] = a})>> : a \in N}, <<g, A>>), Is(clause \o "-edges", SameBag(g.adj, A), <<g, A>>)}

\* functions on a network without self-loops; H is the second network they are given
Both(E) == E \cup {<<t[2], t[1], t[3]>> : t \in E}
Swap(t) == <<t[2], t[1], t[3]>>
BadSimple(st, x, o) ==
  LET N == Nodes(st) A == Adj(st)
      S == Range(x.sub) \cap N
      ch == SelectSeq(x.sub, LAMBDA a : a \in N)
      HA == Both({<<ch[i], ch[i + 1], 8>> : i \in {j \in 1..(Len(ch) - 1) : ch[j] # ch[j + 1]}})
      Ends(E) == {<<t[1], t[2]>> : t \in E}
      Pos(sq, a) == IF a \in Range(sq) THEN CHOOSE i \in 1..Len(sq) : sq[i] = a ELSE 100
      n == Cardinality(N)
      One(E) == {<<p[1], p[2], 1>> : p \in E}
      LE == {<<t[1], t[2]>> : t \in {u \in A : u[1] < u[2]}}
      Code(p) == 10 * p[1] + p[2]
      rn == x.k + 3
  IN UNION {
    Is("core-numbers", SameBag(o.core, {<<a, CoreNumber(st, a)>> : a \in N}), o.core),
    Graph("k-core", o.kcore, KCore(st, x.k, N), AdjAmong(st, KCore(st, x.k, N))),
    Is("triangles", SameBag(o.tri, {<<a, Triangles(st, a)>> : a \in N}), o.tri),
    Is("is-connected", o.connected = (IF Cardinality(Components(st)) = 1 THEN 1 ELSE 0), o.connected),
    Graph("power", o.power, N, {<<p[1], p[2], 1>> : p \in {q \in N \X N : q[1] # q[2] /\ (q[2] \in NbN(st, q[1]) \/ NbN(st, q[1]) \cap NbN(st, q[2]) # {})}}),
    IF o.maxst.net # 1 THEN {F("maximum-spanning-tree-class", o.maxst)}
    ELSE UNION {
      Is("maximum-spanning-tree-edges", Range(o.maxst.adj) \subseteq A /\ SameBag(o.maxst.nodes, N)
           /\ Range(o.maxst.deg) = {<<a, Cardinality({t \in Range(o.maxst.adj) : t[1] = a})>> : a \in N}, o.maxst),
      Is("maximum-spanning-tree-weight", MapThenSumSet(LAMBDA t : t[3], Range(o.maxst.adj)) = 2 * MaxstWeight(st), <<o.maxst, MaxstWeight(st)>>),
      Is("maximum-spanning-tree-size", Len(o.maxst.adj) = 2 * (n - Cardinality(Components(st))), o.maxst)},
    Graph("restricted-view", o.rest, N \ S, AdjAmong(st, N \ S)),
    Graph("edge-subgraph", o.esub, {y[1] : y \in Range(o.half)} \cup {y[2] : y \in Range(o.half)}, {t \in A : t \in Range(o.half) \/ Swap(t) \in Range(o.half)}),
    Is("order", SameBag(o.ord, N), o.ord),
    Graph("integer-labels", o.ints, 0..(n - 1), {<<Pos(o.ord, t[1]) - 1, Pos(o.ord, t[2]) - 1, t[3]>> : t \in A}),
    Is("matrix", Len(o.ord) = n /\ o.matrix = [i \in 1..n |-> [j \in 1..n |-> IF Has(st, o.ord[i], o.ord[j]) THEN Wt(st, o.ord[i], o.ord[j]) ELSE 0]], o.matrix),
    Is("edge-attributes", 2 * Len(o.attr) = Cardinality(A) /\ Both(Range(o.attr)) = A, o.attr),
    Graph("compose", o.compose, N, HA \cup {t \in A : <<t[1], t[2]>> \notin Ends(HA)}),
    Is("order-of-second", SameBag(o.hord, S), o.hord),
    Graph("disjoint-union", o.disjoint, 0..(n + Cardinality(S) - 1),
          {<<Pos(o.ord, t[1]) - 1, Pos(o.ord, t[2]) - 1, t[3]>> : t \in A} \cup {<<n + Pos(o.hord, t[1]) - 1, n + Pos(o.hord, t[2]) - 1, t[3]>> : t \in HA}),
    Graph("intersection", o.both, N, One(Ends(A) \cap Ends(HA))),
    Graph("difference", o.diff, N, One(Ends(A) \ Ends(HA))),
    Graph("cartesian-product", o.prod, {10 * a + i : a \in N, i \in 0..1},
          {<<10 * t[1] + i, 10 * t[2] + i, t[3]>> : t \in A, i \in 0..1} \cup {<<10 * a + i, (10 * a + 1) - i, 7>> : a \in N, i \in 0..1}),
    Graph("line-graph", o.line, {Code(p) : p \in LE}, {<<Code(p[1]), Code(p[2]), 1>> : p \in {q \in LE \X LE : q[1] # q[2] /\ {q[1][1], q[1][2]} \cap {q[2][1], q[2][2]} # {}}}),
    Graph("ring", o.ring, 0..(rn - 1), Both({<<i, (i + 1) % rn, 1>> : i \in 0..(rn - 1)})),
    Graph("copy", o.copy, N, A),
    UNION {Graph("of-data", g, N, A) : g \in Range(o.ofdata)},
    Graph("new", o.new, N, A)}

BadAlg(st, x, o) ==
  LET N == Nodes(st) S == Range(x.sub) \cap N
      s == x.src
  IN UNION {
    Is("connected-components", {Range(y) : y \in Range(o.comps)} = Components(st) /\ Len(o.comps) = Cardinality(Components(st)), o.comps),
    Is("number-of-components", o.ncomps = Cardinality(Components(st)), o.ncomps),
    Graph("subgraph", o.subgraph, S, AdjAmong(st, S)),
    Graph("ego", o.ego, {s} \cup NbN(st, s), AdjAmong(st, {s} \cup NbN(st, s))),
    Graph("empty-copy", o.empty, N, {}),
    Graph("complement", o.compl, N, {<<p[1], p[2], 1>> : p \in {q \in N \X N : q[1] # q[2] /\ ~Has(st, q[1], q[2])}}),
    Graph("relabel", o.relabel, {a + 10 : a \in N}, {<<t[1] + 10, t[2] + 10, t[3]>> : t \in Adj(st)}),
    Graph("union", o.union, N \cup {a + 10 : a \in N}, Adj(st) \cup {<<t[1] + 10, t[2] + 10, t[3]>> : t \in Adj(st)}),
    Is("dict-of-dicts", SameBag(o.dod, Adj(st)), o.dod),
    Is("distances", o.dist # <<>> => {<<y[1], y[2]>> : y \in Range(o.dist)} = {<<a, DistN(st, s)[a]>> : a \in {b \in N : DistN(st, s)[b] < FARN}}, o.dist),
    UNION {BadSimple(st, x, y) : y \in Range(o.simple)},
    IF o.mst.net # 1 THEN {F("spanning-tree-class", o.mst)}
    ELSE UNION {
      Is("spanning-tree-edges", Range(o.mst.adj) \subseteq Adj(st) /\ SameBag(o.mst.nodes, N)
           /\ Range(o.mst.deg) = {<<a, Cardinality({t \in Range(o.mst.adj) : t[1] = a})>> : a \in N}, o.mst),
      Is("spanning-tree-weight", MapThenSumSet(LAMBDA t : t[3], Range(o.mst.adj)) = 2 * MstWeight(st), <<o.mst, MstWeight(st)>>),
      Is("spanning-tree-size", Len(o.mst.adj) = 2 * (Cardinality(N) - Cardinality(Components(st))), o.mst)},
    Is("refused-call", o.refused = 1, o.refused),
    Is("module-restored", o.restored = 1, o.restored),
    Is("module-restored-after-error", o.restored2 = 1, o.restored2)}

BadNx(x) ==
  LET st == NxRun(New(x.cfg), x.ops, Len(x.ops)) o == x.obs
      half == Len(x.ops) \div 2
  IN UNION {
    UNION {Is("refusal", o.refused[i] = (IF NxRefused(NxRun(New(x.cfg), x.ops, i - 1), x.ops[i]) THEN 1 ELSE 0), <<i, x.ops[i], o.refused[i]>>) : i \in DOMAIN x.ops},
    Snap("half", NxRun(New(x.cfg), x.ops, half), o.half),
    Snap("end", st, o.last),
    UNION {BadAlg(st, x, a) : a \in Range(o.alg)},
    Snap("after", st, o.after)}
=============================================================================
