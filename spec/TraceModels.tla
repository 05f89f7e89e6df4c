----------------------------- MODULE TraceModels ------------------------------
(***************************************************************************)
(* Recorded calls of the network models.                                   *)
(***************************************************************************)
EXTENDS TraceBase, MLModels

RECURSIVE ProdOf(_)
ProdOf(S) == IF S = {} THEN 1 ELSE LET q == CHOOSE y \in S : TRUE IN q[2] * ProdOf(S \ {q})
RangeSet(n) == 0..(n-1)
Fn(s) == [a \in {q[1] : q \in Range(s)} |-> (CHOOSE q \in Range(s) : q[1] = a)[2]]

\* the network a record describes: skeleton from the parameters, edges as seen
Seen(x, o) ==
  LET el == [k \in DOMAIN x.el |-> Range(x.el[k])]
      st == [Skeleton(x.kind, x.full, x.coup, el, Range(x.nl), FALSE) EXCEPT !.noedge = IF "noedge" \in DOMAIN x THEN x.noedge ELSE 0]
  IN  WithEdges(st, {<<y[1], y[2], y[3]>> : y \in Range(o.p)})

(* ---------------------------------------------------------------- counts *)
\* x.family, x.n (draws), x.pairs (the possible links), x.a, x.b (probability a/b)
\* family "ba": every new node is linked to one earlier node on each of the layers.  The link from
\* node i to j on layer l is the pair {j, 100 * (l + 1) + i}; j is chosen with a probability
\* proportional to its number of links on all layers before node i came
BaTrees(n, L) == {f \in [(1..(n-1)) \X (0..(L-1)) -> 0..(n-2)] : \A q \in DOMAIN f : f[q] < q[1]}
BaProb(n, L, E) ==
  LET child(s) == Max(s) % 100  parent(s) == Min(s)
      deg(j, i) == Cardinality({s \in E : child(s) < i /\ parent(s) = j}) + Cardinality({s \in E : child(s) < i /\ child(s) = j})
  IN  <<ProdOf({<<s, deg(parent(s), child(s))>> : s \in {y \in E : child(y) > 1}}),
        ProdOf({<<s, 2 * L * (child(s) - 1)>> : s \in {y \in E : child(y) > 1}})>>
Outcomes(x) ==
  LET P == {Range(p) : p \in Range(x.pairs)}
  IN  CASE x.family = "p"     -> SUBSET P
        [] x.family = "edges" -> kSubset(x.m, P)
        [] x.family = "deg"   -> {E \in SUBSET P : DegreesAre(E, Fn(x.deg))}
        [] x.family = "ba"    -> {{{f[q], 100 * (q[2] + 1) + q[1]} : q \in DOMAIN f} : f \in BaTrees(x.n0, x.layers)}
Prob(x, E) ==
  LET m == Len(x.pairs) k == Cardinality(E)
  IN  IF x.family = "ba" THEN BaProb(x.n0, x.layers, E) ELSE
      IF x.family = "p" THEN <<Pow(x.a, k) * Pow(x.b - x.a, m - k), Pow(x.b, m)>>
      ELSE <<1, Cardinality(Outcomes(x))>>
BadCounts(x) ==
  LET seen == Range(x.obs.counts)
      key(y) == {Range(p) : p \in Range(y[1])}
      cnt(E) == LET h == {y \in seen : key(y) = E} IN IF h = {} THEN 0 ELSE SumPairs({<<y, y[2]>> : y \in h})
  IN UNION {
      Is("impossible-outcome", {key(y) : y \in seen} \subseteq Outcomes(x), {key(y) : y \in seen} \ Outcomes(x)),
      Is("draws", SumPairs({<<y, y[2]>> : y \in seen}) = x.n, x.n),
      UNION {Is("outcome-frequency", Frequent(cnt(E), x.n, Prob(x, E)[1], Prob(x, E)[2]), <<E, cnt(E), x.n, Prob(x, E)>>)
             : E \in Outcomes(x)}}

(* ------------------------------------------------------------------- C22 *)
BadERnet(x) ==
  LET st == Seen(x, x.obs.res) IN
  UNION {
    BadNet("network", st, x.obs.res),
    Is("simple", Simple(st), x.obs.res.p),
    UNION {Is("layer-edges", ERLayer(LayerLinks(st, y.l), Range(y.nodes), y.mode, y.m), y) : y \in Range(x.layers)}}
\* edges between different nodes on the same or on different layers
BadERmultilayer(x) ==
  LET st == Seen(x, x.obs.res)
      all == {{a, b} : a \in NodeLayers(st), b \in NodeLayers(st)}
      P == {s \in all : Cardinality({a[1] : a \in s}) = 2}
      E == {{q[1], q[2]} : q \in DOMAIN st.e}
  IN UNION {
    BadNet("network", st, x.obs.res),
    Is("simple", Simple(st), x.obs.res.p),
    Is("links", E \subseteq P /\ (x.mode = "p0" => E = {}) /\ (x.mode = "p1" => E = P), E),
    Is("weights", x.obs.weights = 1, x.obs.weights)}
BadER(x) == IF x.fn = "counts" THEN BadCounts(x) ELSE IF x.fn = "er_multilayer" THEN BadERmultilayer(x) ELSE BadERnet(x)

(* ------------------------------------------------------------------- C23 *)
BadConfNet(x) ==
  LET st == Seen(x, x.obs.res) IN
  UNION {
    BadNet("network", st, x.obs.res),
    Is("simple", Simple(st), x.obs.res.p),
    UNION {LET E == LayerLinks(st, y.l) IN
           Is("degrees", IF y.dist THEN DistributionIs(E, Range(y.nodes), Fn(y.deg)) ELSE DegreesAre(E, Fn(y.deg)), y)
           : y \in Range(x.layers)}}
\* x.comb: the layer combinations with the overlap degrees wanted
BadOverlapConf(x) ==
  LET st == Seen(x, x.obs.res) IN
  UNION {
    BadNet("network", st, x.obs.res),
    Is("simple", Simple(st), x.obs.res.p),
    UNION {Is("overlap-degrees", DegreesAre(ExactlyIn(st, Range(y.c)), Fn(y.deg)), y) : y \in Range(x.comb)}}
\* x.comb: layer combinations with the number of shared edges
BadOverlapER(x) ==
  LET st == Seen(x, x.obs.res)
      all == UNION {LayerLinks(st, <<l>>) : l \in st.el[2]}
      named == {Range(y.c) : y \in Range(x.comb)}
  IN UNION {
    BadNet("network", st, x.obs.res),
    Is("simple", Simple(st), x.obs.res.p),
    Is("aggregated-edges", Cardinality(all) = x.edges * Cardinality(st.el[2]), Cardinality(all)),
    UNION {Is("shared-edges", Cardinality(ExactlyIn(st, Range(y.c))) = y.m, y) : y \in Range(x.comb)},
    Is("only-given-overlaps", \A p \in all : \E S \in named : p \in ExactlyIn(st, S), all)}
BadConf(x) ==
  CASE x.fn = "counts" -> BadCounts(x)
    [] x.fn = "conf" -> BadConfNet(x)
    [] x.fn = "conf_overlaps" -> BadOverlapConf(x)
    [] x.fn = "er_overlaps" -> BadOverlapER(x)

(* ------------------------------------------------------------------- C24 *)
\* every pair of different nodes on every layer
FullLayers(st) == \A l \in LayerTuples(st.el) : LayerLinks(st, l) = NodePairs(NodesIn(st, l))
FullMultilayer(st) == {{q[1], q[2]} : q \in DOMAIN st.e} = NodePairs(NodeLayers(st))
\* node i >= m is linked to exactly m earlier nodes
AttachedTo(st, l, m) ==
  \A i \in st.el[1] :
    Cardinality({j \in st.el[1] : j < i /\ {i, j} \in LayerLinks(st, l)}) = IF i >= m THEN m ELSE 0
\* a ring in which every node has k links, some of them rewired
RingRewired(st, l, k) == Cardinality(LayerLinks(st, l)) = Cardinality(st.el[1]) * (k \div 2)
RingLinks(n, k) == {s \in NodePairs(0..(n-1)) : \E i \in s, d \in 1..(k \div 2) : s = {i, (i + d) % n}}
BadMean(x) ==   \* the mean number of edges of every layer is near the number wanted
  UNION {Is("mean-number-of-edges", 2 * x.obs.tot[k] >= x.draws * x.ms[k] /\ x.obs.tot[k] <= 2 * x.draws * x.ms[k], <<k, x.obs.tot>>)
         : k \in DOMAIN x.ms}
BadModel(x) ==
  IF x.fn = "mean" THEN BadMean(x) ELSE IF x.fn = "counts" THEN BadCounts(x) ELSE
  LET st == Seen(x, x.obs.res) IN
  UNION {
    BadNet("network", st, x.obs.res),
    Is("simple", Simple(st), x.obs.res.p),
    IF x.fn = "full" THEN Is("full", FullLayers(st), x.obs.res.p)
    ELSE IF x.fn = "full_multilayer" THEN Is("full", FullMultilayer(st), x.obs.res.p)
    ELSE IF x.fn = "ba" THEN UNION {Is("attachment", AttachedTo(st, y.l, y.m), y) : y \in Range(x.layers)}
    ELSE IF x.fn = "ws" THEN UNION {
           Is("number-of-edges", RingRewired(st, y.l, y.m), y) \cup
           Is("ring", x.p # "0" \/ LayerLinks(st, y.l) = RingLinks(Cardinality(st.el[1]), y.m), y) : y \in Range(x.layers)}
    ELSE {}}
=============================================================================
