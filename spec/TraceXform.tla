----------------------------- MODULE TraceXform ------------------------------
(***************************************************************************)
(* Recorded calls of the network transformations (C10 - C16).              *)
(***************************************************************************)
EXTENDS TraceBase, MLTransforms

Input(x) == BadNet("input", NetOf(x.net), x.obs.after)

BadAggregate(x) ==
  LET st == NetOf(x.net)
  IN  BadNet("aggregate", Aggregate(st, Range(x.over), x.selfe), x.obs.res) \cup Input(x) \cup
      Is("given-network", x.obs.same = 1, x.obs.same)
BadOverlay(x) == BadNet("overlay", Overlay(NetOf(x.net)), x.obs.res) \cup Input(x)
BadAgg(x) == IF x.fn = "aggregate" THEN BadAggregate(x) ELSE BadOverlay(x)

\* x.sel[k]: list of elements, or <<-1>> for "all"
SelOf(st, s) == [k \in DOMAIN s |-> IF s[k] = <<-1>> THEN st.el[k] ELSE Range(s[k])]
BadSub(x) ==
  LET st == NetOf(x.net)
      r == Subnet(st, SelOf(st, x.sel), x.nolinks)
      r2 == IF x.into = "ml" THEN [AsMultilayer(r) EXCEPT !.e = IF x.nolinks THEN Weightless ELSE @]
            ELSE IF x.into = "partial" THEN AsPartial(r) ELSE r
      r3 == IF x.into \in {"ml", "same"} THEN [r2 EXCEPT !.noedge = IF x.ono # 0 THEN x.ono ELSE @, !.dir = @ \/ x.odir = 1] ELSE r2
  IN  BadNet("subnet", r3, x.obs.res) \cup Input(x)

PairsFn(s) == [a \in {q[1] : q \in Range(s)} |-> (CHOOSE q \in Range(s) : q[1] = a)[2]]
BadRelabel(x) ==
  LET st == NetOf(x.net)
  IN  IF x.fn = "relabel"
      THEN BadNet("relabel", Relabel(st, [k \in DOMAIN x.maps |-> PairsFn(x.maps[k])]), x.obs.res) \cup Input(x)
           \cup Is("arguments", x.obs.argsok = 1, x.obs.argsok)
      ELSE LET m == NormMaps(st, x.nstart, x.lstart)
               bag(k, f) == {<<a, f[a]>> : a \in DOMAIN f}
           IN  BadNet("normalize", Relabel(st, m), x.obs.res) \cup Input(x)
               \cup UNION {Is("normalize-map", SameBag(x.obs.maps[i][2], bag(x.obs.maps[i][1], m[x.obs.maps[i][1]])),
                              x.obs.maps[i]) : i \in DOMAIN x.obs.maps}
               \cup Is("normalize-returns", x.obs.nret = x.nret, x.obs.nret)

BadThreshold(x) == BadNet("threshold", Threshold(NetOf(x.net), x.rule, x.t), x.obs.res) \cup Input(x)

\* one element per produced network, compared as bags
Canon(st) == <<st.el, NodeLayers(st), {<<q, Link(st, q[1], q[2])>> : q \in EdgePairs(st)}>>
CanonObs(o) == <<[k \in DOMAIN o.el |-> Range(o.el[k])], Range(o.nl), {<<<<y[1], y[2]>>, y[3]>> : y \in Range(o.p)}>>
BadIter(x) ==
  LET st == NetOf(x.net)
      ids == AllSubnets(st, Range(x.removable), x.redges)
      exp == [i \in ids |-> Canon(KeepEdges(Subnet(st, i[1], FALSE), i[2]))]
      got == [i \in DOMAIN x.obs.res |-> CanonObs(x.obs.res[i])]
      vals == {exp[i] : i \in ids} \cup Range(got)
      cnt(f, v) == Cardinality({i \in DOMAIN f : f[i] = v})
  IN  UNION {
       Is("number-of-subnetworks", Len(x.obs.res) = Cardinality(ids), <<Len(x.obs.res), Cardinality(ids)>>),
       Is("subnetworks", \A v \in vals : cnt(exp, v) = cnt(got, v), {v \in vals : cnt(exp, v) # cnt(got, v)}),
       UNION {Is("configuration", x.obs.res[i].kind = st.kind /\ x.obs.res[i].dir = st.dir /\ x.obs.res[i].full = st.full
                 /\ x.obs.res[i].noedge = st.noedge, x.obs.res[i]) : i \in DOMAIN x.obs.res},
       Input(x)}

BadUnderlying(x) ==
  LET st == NetOf(x.net) u == Underlying(st) o == x.obs
      exp == {<<q[1][1], q[2][1], u.e[q]>> : q \in DOMAIN u.e}
  IN UNION {
      Is("underlying-nodes", SameBag(o.nodes, u.el[1]), o.nodes),
      Is("underlying-class", o.cls = 1, o.cls),
      Is("underlying-directed", o.dir = st.dir /\ o.noedge = st.noedge, <<o.dir, o.noedge>>),
      Is("underlying-edges", {<<y[1], y[2], y[3]>> : y \in Range(o.p)} = exp, <<o.p, exp>>),
      Is("underlying-edge-count", o.ne = NumEdges(st), o.ne),
      Input(x)}

\* how often every outcome was seen in x.n draws: each node permutation of each layer is equally likely
RECURSIVE FactOf(_)
FactOf(k) == IF k = 0 THEN 1 ELSE k * FactOf(k - 1)
RECURSIVE ProdSeq(_)
ProdSeq(s) == IF s = <<>> THEN 1 ELSE Head(s) * ProdSeq(Tail(s))
BadFrequencies(x) ==
  LET st == NetOf(x.net)
      Ls == SetToSeq(LayerTuples(st.el))
      imgs == TLCEval([i \in DOMAIN Ls |-> TLCEval([f \in Bijections(NodesIn(st, Ls[i])) |->
                 {<<f[y[1]], f[y[2]], y[3]>> : y \in LayerEdges(st, Ls[i])}])])
      at(c0, l) == {<<y[1][1], y[2][1], y[3]>> : y \in {z \in Range(c0[1]) : Tail(z[1]) = l}}
      ways(c0) == ProdSeq([i \in DOMAIN Ls |-> Cardinality({f \in DOMAIN imgs[i] : imgs[i][f] = at(c0, Ls[i])})])
      all == ProdSeq([i \in DOMAIN Ls |-> FactOf(Cardinality(NodesIn(st, Ls[i])))])
      cs == x.obs.counts
  IN UNION {
       Is("permutations-missing", Len(cs) = ProdSeq([i \in DOMAIN Ls |-> Cardinality(Range(imgs[i]))]), <<Len(cs), all>>),
       Check("permutation-frequency", cs, LAMBDA c0 : Frequent(c0[2], x.n, ways(c0), all))}
BadRandomize(x) == IF "n" \in DOMAIN x THEN BadFrequencies(x) ELSE
  LET st == NetOf(x.net) o == x.obs
  IN UNION {
       UNION {LET t == FromJson(r)
              IN  Is("randomized", Permuted(st, t), r) \cup BadNet("randomized", t, r.proj) : r \in Range(o.res)},
       Input(x)}
=============================================================================
