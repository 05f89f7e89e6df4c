----------------------------- MODULE TraceDiag -------------------------------
(***************************************************************************)
(* Recorded calls of the diagnostics (C18 - C21).                          *)
(***************************************************************************)
EXTENDS TraceBase, MLDiagnostics

Input(x) == BadNet("input", NetOf(x.net), x.obs.after)
RatEq(a, b) == a[2] > 0 /\ b[2] > 0 /\ a[1] * b[2] = b[1] * a[2]

BadDegs(x) ==
  LET st == NetOf(x.net) o == x.obs
      N == DegNodes(st, NodeLayers(st))
  IN UNION {
      Is("degs-nodes", SameBag(o.nodes, N), o.nodes),
      Is("degs-distribution", SameBag(o.dist, Distribution(N)), o.dist),
      Is("density", RatEq(o.density, Density(st)), <<o.density, Density(st)>>),
      IF st.kind # "mx" THEN {} ELSE UNION {
        Is("layers", SameBag([i \in DOMAIN o.layers |-> o.layers[i].l], LayerTuples(st.el)), o.layers),
        UNION {LET ln == LayerNet(st, y.l)  M == DegNodes(ln, NodeLayers(ln))
               IN  UNION {Is("multiplex-degs-nodes", SameBag(y.nodes, M), y),
                          Is("multiplex-degs-distribution", SameBag(y.dist, Distribution(M)), y),
                          Is("multiplex-density", RatEq(y.density, Density(ln)), <<y, Density(ln)>>)}
               : y \in Range(o.layers)}},
      Input(x)}

BadOverlap(x) ==
  LET st == NetOf(x.net) o == x.obs
      combos == (SUBSET st.el[2]) \ {{}}
  IN UNION {
      Is("combinations", Cardinality({Range(y[1]) : y \in Range(o.res)}) = Len(o.res) /\ {Range(y[1]) : y \in Range(o.res)} = combos,
         [i \in DOMAIN o.res |-> o.res[i][1]]),
      UNION {Is("overlap-degrees", SameBag(y[2], {<<n, OverlapDeg(st, Range(y[1]), n)>> : n \in UNION {NodesIn(st, <<l>>) : l \in Range(y[1])}}), y)
             : y \in Range(o.res)},
      Input(x)}

BadDijkstra(x) ==
  LET st == NetOf(x.net) o == x.obs
      S == Range(x.sources)
      d == Dist(st, S)
      \* roots are marked with the marker of absent edges, which is no edge of the forest if it is -1
      E == {<<q[1], q[2], Link(st, q[1], q[2])>> : q \in Tight(st, d)} \cup (IF st.noedge = -1 THEN {} ELSE {<<s, s, st.noedge>> : s \in S})
      ends == UNION {{e[1], e[2]} : e \in E}
  IN UNION {
      Is("distances", SameBag(o.d, {<<a, d[a]>> : a \in Reached(d)}), <<o.d, d>>),
      Is("forest-edges", SameBag(o.f, E), <<o.f, E>>),
      Is("forest-nodes", IsInjective(o.fnl) /\ Range(o.fnl) \subseteq Reached(d) /\ ends \subseteq Range(o.fnl), o.fnl),
      Is("forest-config", o.fcfg = <<st.asp, TRUE>>, o.fcfg),
      Input(x)}

BadPrune(x) ==
  LET st == NetOf(x.net) o == x.obs
      ag == Range(x.over)
      keep == SetToSortSeq({k \in 1..(st.asp+1) : (k-1) \notin ag}, <)
      Pr(a) == [i \in DOMAIN keep |-> a[keep[i]]]
      S == {a \in NodeLayers(st) : DegOf(st, a) > 0 /\ \E s \in Range(x.sources) : \A k \in DOMAIN a : s[k] = -1 \/ s[k] = a[k]}
      d == Dist(st, S)
      R == Reached(d)
      best(p) == Min({d[a] : a \in {b \in R : Pr(b) = p}})
      T == {a \in R : d[a] = best(Pr(a))}
      roots == IF st.noedge = -1 THEN {} ELSE {<<s, s>> : s \in S}
      B == BackEdges(Tight(st, d) \cup roots, T, {})
      E == {<<q[1], q[2], IF q[1] = q[2] THEN st.noedge ELSE Link(st, q[1], q[2])>> : q \in B}
  IN UNION {
      Is("pruned-distances", SameBag(o.d, {<<Pr(a), best(Pr(a))>> : a \in R}), <<o.d, d>>),
      Is("pruned-forest", SameBag(o.f, E), <<o.f, E>>),
      Input(x)}
(* a path of n edges of weight 2 on layer b, and the same without its last node with weight 1 on layer a;
   node 0 is the source, and layers are ignored: the last node is reached on b only.  One root marker on each layer *)
BadChain(x) ==
  LET o == x.obs n == x.n IN UNION {
      Is("chain-distances", o.size = n + 1 /\ o.d = [i \in DOMAIN o.d |-> <<o.d[i][1], IF o.d[i][1] = n THEN 2 * n ELSE o.d[i][1]>>], o),
      Is("chain-forest", o.edges = 2 * n + 1 /\ o.within = <<<<"a", n, n - 1>>, <<"b", n + 1, 2 * n>>>>, o),
      Input(x)}
BadPaths(x) == IF x.fn = "chain" THEN BadChain(x) ELSE IF x.fn = "dijkstra" THEN BadDijkstra(x) ELSE BadPrune(x)
=============================================================================
