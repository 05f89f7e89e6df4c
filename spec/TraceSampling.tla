---------------------------- MODULE TraceSampling -----------------------------
(***************************************************************************)
(* Recorded enumerations and samples of induced subgraphs (C26 - C28).     *)
(***************************************************************************)
EXTENDS TraceBase, MLSampling

\* x.inter: list of <<roles (1-based), size>>
InterFn(s) == [S \in {Range(q[1]) : q \in Range(s)} |-> (CHOOSE q \in Range(s) : Range(q[1]) = S)[2]]
Valid(x, st, E, N, L) ==
  CASE x.req = "relaxed" -> Relaxed(st, E, N, L)
    [] x.req = "even" -> Relaxed(st, E, N, L) /\ Cardinality({{q[1], q[2]} : q \in {y \in E : y[1] \in Induced(st, N, L) /\ y[2] \in Induced(st, N, L)}}) % 2 = 0
    [] x.req = "sizes" -> Required(st, E, N, L, x.sizes, InterFn(x.inter), x.type)
Subgraphs(x, st) ==
  LET E == EdgePairs(st)
      cand(S, k) == {T \in SUBSET S : Cardinality(T) = k}
  IN  {<<N, L>> \in cand(st.el[1], x.nn) \X cand(st.el[2], x.nlay) : Valid(x, st, E, N, L)}

BadList(clause, got, exp) ==
  LET seen == {<<Range(y[1]), Range(y[2])>> : y \in Range(got)}
  IN UNION {
      Is(clause \o "-missing", exp \subseteq seen, exp \ seen),
      Is(clause \o "-wrong", seen \subseteq exp, seen \ exp),
      Is(clause \o "-twice", Len(got) = Cardinality(seen), got),
      Check(clause \o "-repeated-names", got, LAMBDA y : NoDup(y[1]) /\ NoDup(y[2]))}

BadEnum(x) ==
  LET st == NetOf(x.net) exp == Subgraphs(x, st)
  IN  UNION {BadList(y.how, y.found, exp) : y \in Range(x.obs.runs)}
            \cup Check("refused", x.obs.refused, LAMBDA y : y[2] = 1) \cup BadNet("input", st, x.obs.after)

(* every subgraph is found with the product of the probabilities x.num/x.den *)
BadProb(x) ==
  LET st == NetOf(x.net) exp == Subgraphs(x, st) o == x.obs
      key(y) == <<Range(y[1]), Range(y[2])>>
      cnt(s) == LET h == {y \in Range(o.counts) : key(y) = s} IN IF h = {} THEN 0 ELSE SumPairs({<<y, y[3]>> : y \in h})
  IN UNION {
      Is("sampled-wrong", {key(y) : y \in Range(o.counts)} \subseteq exp, {key(y) : y \in Range(o.counts)} \ exp),
      Is("sampled-twice", o.twice = 0, o.twice),
      UNION {Is("sampling-probability", Frequent(cnt(s), x.n, x.num, x.den), <<s, cnt(s), x.n, x.num, x.den>>) : s \in exp},
      Is("seed", o.seeded = 1, o.seeded)}

(* ------------------------------------------------------------------- C28 *)
\* x.calls: [f, nodes, layers, ...]; x.obs.res: one boolean or pair each
BadReqs(x) ==
  LET st == NetOf(x.net) E == EdgePairs(st)
      exp(q) == IF q.f = "relaxed" THEN Relaxed(st, E, Range(q.nodes), Range(q.layers))
                ELSE Required(st, E, Range(q.nodes), Range(q.layers), q.sizes, InterFn(q.inter), q.type)
  IN  UNION {Is("requirement-" \o x.calls[i].f, x.obs.res[i] = (IF exp(x.calls[i]) THEN 1 ELSE 0), <<x.calls[i], x.obs.res[i]>>)
             : i \in DOMAIN x.calls}
      \cup UNION {Is("required-lengths", x.obs.lens[i] = <<RequiredNodes(x.lens[i].sizes, InterFn(x.lens[i].inter)), Len(x.lens[i].sizes)>>,
                     <<x.lens[i], x.obs.lens[i]>>) : i \in DOMAIN x.lens}
      \cup Check("refused", x.obs.refused, LAMBDA y : y[2] = 1)
      \cup BadNet("input", st, x.obs.after)
BadCreators(x) ==
  IF x.fn = "random_nodelists"
  THEN UNION {Is("number-of-layers", Len(x.obs.lists) = x.nlay, x.obs.lists),
              Check("nodes-of-a-layer", x.obs.lists, LAMBDA s : NoDup(s) /\ Len(s) = x.per /\ Range(s) \subseteq 0..(x.pool-1)),
              Is("seed", x.obs.seeded = 1, x.obs.seeded)}
  ELSE LET o == x.obs.res
           st == [FromJson(x.net) EXCEPT !.e = [q \in {<<y[1], y[2]>> : y \in Range(o.p)} |-> 1]]
           P == {s \in SUBSET NodeLayers(st) : Cardinality(s) = 2}
           G == {{q[1], q[2]} : q \in DOMAIN st.e}
       IN UNION {BadNet("network", st, o),
                 Is("links", G \subseteq P /\ (x.mode = "p0" => G = {}) /\ (x.mode = "p1" => G = P), G),
                 Is("seed", x.obs.seeded = 1, x.obs.seeded),
                 Is("link-frequency", x.mode # "p" \/ Frequent(x.obs.total, x.n * Cardinality(P), 2, 5),
                    <<x.obs.total, x.n>>)}
BadReq(x) == IF x.fn = "reqs" THEN BadReqs(x) ELSE BadCreators(x)
=============================================================================
