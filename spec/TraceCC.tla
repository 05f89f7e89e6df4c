------------------------------ MODULE TraceCC --------------------------------
(***************************************************************************)
(* Recorded clustering coefficients (C29 - C31).  Values are recorded as   *)
(* integers, in millionths; UNDEF is the value asked for when the          *)
(* coefficient is undefined, NONE the value None.                          *)
(***************************************************************************)
EXTENDS TraceBase, MLClustering

UNDEF == -777000000
NONE == -888000000
Val(v, q, undef) == IF q[2] = 0 THEN v = undef ELSE v # UNDEF /\ v # NONE /\ Close(v, q)
Input(x) == BadNet("input", NetOf(x.net), x.obs.after)
V(clause, v, q, undef, wit) == Is(clause, Val(v, q, undef), <<wit, v, q>>)

BadMono(x) ==
  LET st == NetOf(x.net) o == x.obs
      cubes == \A p \in DOMAIN st.e : Link(st, p[1], p[2]) \in {1, 8, 27}
  IN UNION {
      UNION {UNION {
        V("lcc", y[2], Lcc(st, y[1]), x.undef, y),
        V("cc-zhang", y[3], Zhang(st, y[1]), x.undef, y),
        V("cc-barrat", y[4], Barrat(st, y[1]), x.undef, y),
        IF cubes THEN V("cc-onnela", y[5], Onnela(st, y[1]), x.undef, y) ELSE {}} : y \in Range(o.nodes)},
      Is("all-nodes", {y[1] : y \in Range(o.nodes)} = NodeLayers(st), o.nodes),
      V("gcc-zhang", o.gzhang, GlobalZhang(st), NONE, "gcc_zhang"),
      LET D == {a \in NodeLayers(st) : Lcc(st, a)[2] > 0}
          s == Sum(D, LAMBDA a : Fx(Lcc(st, a)))
      IN  Is("gcc-from-lcc", IF D = {} THEN o.glcc = NONE ELSE Abs(o.glcc * Cardinality(D) - s) <= 4 * Cardinality(D), <<o.glcc, s, D>>),
      V("clustering-of-network", o.trans, Transitivity(st, [v \in NodeLayers(st) |-> Neigh(st, v)]), NONE, "gcc_super_graph"),
      Input(x)}

(* ----------------------------------------------------------------- C30 *)
Cyc(clause, got, exp, wit) == Is(clause, got = exp, <<wit, got, exp>>)
BadCoefs(clause, o, cv, x) ==
  UNION {
    UNION {V(clause \o "-vector", o.vec[i], CVec(cv)[i], 0, <<i, o>>) : i \in 1..3},
    V(clause, o.val, Cost(cv, x.ab[1], x.ab[2]), 0, o),
    IF x.small THEN {} ELSE Is(clause \o "-weighted", Abs(o.w3 - Weighted(cv, x.w)) <= 8, <<o, Weighted(cv, x.w)>>)}
\* equal weights are the default
Thirds(v, cv) == Abs(3 * v - (Fx(CVec(cv)[1]) + Fx(CVec(cv)[2]) + Fx(CVec(cv)[3]))) <= 12
Thirds2(v, cv) == Abs(3 * v - (Fx(MVec(cv)[1]) + Fx(MVec(cv)[2]) + Fx(MVec(cv)[3]))) <= 12
BadDefaults(x, d, cy, all) ==
  LET at(n, l) == IF <<n, l>> \in DOMAIN cy THEN cy[<<n, l>>] ELSE Zero10
      ofnode(n) == SumVec(cy, {v \in DOMAIN cy : v[1] = n})
      NL == DOMAIN cy
      k == Cardinality(NL)
      avg(v, f(_)) == Abs(v * k - Sum(NL, LAMBDA y : f(cy[y]))) <= 9 * k
  IN UNION {
      UNION {V("lcc-aw-default", y[3], Cost(at(y[1], y[2]), 1, 1), 0, y) : y \in Range(d.lcc)},
      UNION {V("sncc-aw-default", y[2], Cost(ofnode(y[1]), 1, 1), 0, y) : y \in Range(d.sncc)},
      UNION {V("sncc-aw-layercost-default", y[3], Cost(ofnode(y[1]), 1, 1), 0, y) : y \in Range(d.sncc)},
      UNION {LET cv == ofnode(y[1])
             IN  Is("sncc-aw-seplayers-default", IF \E i \in 1..3 : CVec(cv)[i][2] = 0 THEN y[4] = NONE ELSE y[4] # NONE /\ Thirds(y[4], cv), <<y, cv>>)
             : y \in Range(d.sncc)},
      V("gcc-aw-default", d.gcc, Cost(all, 1, 1), 0, d.gcc),
      Is("gcc-moreno2-seplayers-default", Thirds2(d.moreno, all), <<d.moreno, all>>),
      IF d.avg = <<>> THEN {} ELSE UNION {
        Is("avg-lcc-aw-default", avg(d.avg[1], LAMBDA z : Fx(Cost(z, 1, 1))), d.avg),
        Is("avg-lcc-aw-weighted", avg(d.avg[2], LAMBDA z : Weighted(z, x.w)), d.avg)},
      UNION {Is("gcc-aw-seplayers-matrix-default", Thirds(y, all), <<y, all>>) : y \in Range(d.matrix)},
      UNION {Is("gcc-moreno2-matrix-default", (\E i \in 1..2 : CVec(all)[i][2] = 0) \/ Thirds2(y, all), <<y, all>>) : y \in Range(d.mmoreno)}}
BadWalks(x) ==
  LET st == NetOf(x.net) o == x.obs
      cy == AllCycles(st)
      at(n, l) == IF <<n, l>> \in DOMAIN cy THEN cy[<<n, l>>] ELSE Zero10
      ofnode(n) == SumVec(cy, {v \in DOMAIN cy : v[1] = n})
      oflayer(l) == SumVec(cy, {v \in DOMAIN cy : v[2] = l})
      all == SumVec(cy, DOMAIN cy)
      NL == DOMAIN cy
      fx(f(_)) == Sum(NL, LAMBDA v : Fx(f(v)))
      A == Intra(st)
      avg(clause, got, f(_)) == Is(clause, NL = {} \/ Abs(got * Cardinality(NL) - fx(f)) <= 5 * Cardinality(NL), <<got, fx(f), Cardinality(NL)>>)
      lt(n, l) == IF <<n, l>> \in NL THEN <<Triangles(st, A, <<n, l>>) \div 2, Triples(A, <<n, l>>) \div 2>> ELSE <<0, 0>>
  IN UNION {
      UNION {Cyc("cycles-" \o y[1], y[4], CASE y[1] = "node-layer" -> at(y[2], y[3])
                                            [] y[1] = "node" -> ofnode(y[2])
                                            [] y[1] = "layer" -> oflayer(y[3])
                                            [] y[1] = "all" -> all, y) : y \in Range(o.cycles)},
      UNION {BadCoefs("lcc-aw", y.c, at(y.n, y.l), x) : y \in Range(o.lcc)},
      UNION {BadCoefs("sncc-aw", y.c, ofnode(y.n), x) : y \in Range(o.sncc)},
      BadCoefs("gcc-aw", o.gcc, all, x),
      UNION {V("sncc-aw-layercost", y.cost, Cost(ofnode(y.n), x.ab[1], x.ab[2]), 0, y) : y \in Range(o.sncc)},
      UNION {LET cv == ofnode(y.n)
                 bad == \E i \in 1..3 : CVec(cv)[i][2] = 0 /\ x.w[i] > 0
             IN  Is("sncc-aw-seplayers", IF bad THEN y.sep = UNDEF ELSE y.sep # UNDEF /\ Abs(y.sep - Weighted(cv, x.w)) <= 8, <<y, cv>>) : y \in Range(o.sncc)},
      avg("avg-lcc-aw", o.avg.val, LAMBDA v : Cost(cy[v], x.ab[1], x.ab[2])),
      UNION {avg("avg-lcc-aw-vector", o.avg.vec[i], LAMBDA v : CVec(cy[v])[i]) : i \in 1..3},
      Is("gcc-moreno2-seplayers", Abs(o.moreno.w3 - Weighted2(all, x.w)) <= 8, <<o.moreno, Weighted2(all, x.w)>>),
      V("gcc-moreno2-seplayers-cost", o.moreno.val, CostM(all, x.ab[1], x.ab[2]), 0, o.moreno),
      Is("cc-aw-vector", \A y \in Range(o.vectors) : y[2] = <<T3(at(y[1][1], y[1][2]))[1], D3(at(y[1][1], y[1][2]))[1],
                                                           T3(at(y[1][1], y[1][2]))[2], D3(at(y[1][1], y[1][2]))[2],
                                                           T3(at(y[1][1], y[1][2]))[3], D3(at(y[1][1], y[1][2]))[3]>>, o.vectors),
      UNION {UNION {
          Is("cc-sequence", {<<z[1], <<z[2], z[3]>>>> : z \in Range(y.seq)} = {<<l, lt(y.n, l)>> : l \in st.el[2]} /\ Len(y.seq) = Cardinality(st.el[2]), y),
          LET D == {l \in st.el[2] : lt(y.n, l)[2] = 0}
              s == Sum(st.el[2], LAMBDA l : Fx(lt(y.n, l)))
              k == Cardinality(st.el[2])
          IN  IF D # {} \/ k = 0 THEN {} ELSE Is("cc-layers-avg", Abs(y.avg * k - s) <= 5 * k, <<y, s>>),
          V("cc-layers-wavg", y.wavg, <<Sum(st.el[2], LAMBDA l : lt(y.n, l)[1]), Sum(st.el[2], LAMBDA l : lt(y.n, l)[2])>>, UNDEF, y)}
        : y \in Range(o.seqs)},
      V("gcc-super-graph", o.super, Transitivity(st, Supra(st)), NONE, "gcc_super_graph"),
      V("gcc-super-graph-no-couplings", o.superno, Transitivity(st, A), NONE, "gcc_super_graph_no_couplings"),
      UNION {V("gcc-contraction-" \o y[1], y[2], ContractionSupra(st), NONE, y) : y \in Range(o.contr)},
      UNION {V("gcc-contraction-" \o y[1], y[2], ContractionAgg(st, Agg(st)), NONE, y) : y \in Range(o.contro)},
      UNION {Cyc("cycles-matrix", y[3], at(y[1], y[2]), y) : y \in Range(o.mcycles)},
      UNION {Is("gcc-aw-seplayers-matrix", Abs(y - Weighted(all, x.w)) <= 8, <<y, Weighted(all, x.w), all>>) : y \in Range(o.msep)},
      UNION {Is("gcc-aw-vector-matrix", \A i \in 1..3 : LET r == CVec(all)[i] IN Abs(y[i] - Fx(IF r[2] = 0 THEN <<0, 1>> ELSE r)) <= 8, <<y, CVec(all)>>) : y \in Range(o.msepvec)},
      UNION {Is("gcc-moreno2-matrix", \/ \E i \in 1..2 : CVec(all)[i][2] = 0
                                      \/ Abs(y - Weighted2(all, x.w)) <= 8, <<y, Weighted2(all, x.w)>>) : y \in Range(o.mmoreno)},
      BadDefaults(x, o.defaults, cy, all),
      Input(x)}

(* ----------------------------------------------------------------- C31 *)
BadMulti(x) ==
  LET st == NetOf(x.net) o == x.obs
      g == Agg(st)
      L == Cardinality(st.el[2])
  IN UNION {
      UNION {UNION {
        UNION {V("barrett-" \o z[1], z[2], Barrett(st, g, y.n), 0, <<y.n, z>>) : z \in Range(y.barrett)},
        UNION {V("brodka", z[2], Brodka(st, g, y.n, IF z[1] = -1 THEN L ELSE z[1]), 0, <<y.n, z>>) : z \in Range(y.brodka)},
        UNION {V("battiston1", z, Battiston1(st, y.n), x.undef, <<y.n, z>>) : z \in Range(y.bat1)},
        UNION {V("battiston2", z, Battiston2(st, y.n), x.undef, <<y.n, z>>) : z \in Range(y.bat2)},
        UNION {V("criado", z, Criado(st, y.n), x.undef, <<y.n, z>>) : z \in Range(y.criado)}} : y \in Range(o.nodes)},
      Is("all-nodes", {y.n : y \in Range(o.nodes)} = st.el[1], o.nodes),
      Input(x)}
=============================================================================
