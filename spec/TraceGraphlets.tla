---------------------------- MODULE TraceGraphlets -----------------------------
(***************************************************************************)
(* Recorded graphlet enumerations, orbit counts and orbit equations        *)
(* (C35 - C37).  Graphlets are recorded as [k, index, nodes, layers, edges]*)
(***************************************************************************)
EXTENDS TraceBase, MLGraphlets

Struct(r) == [n |-> Range(r[3]), l |-> Range(r[4]), e |-> {<<t[1], t[2], t[3]>> : t \in Range(r[5])}]
Id(r) == <<r[1], r[2]>>
\* id -> structure and form
Reps(s) == TLCEval([q \in {Id(r) : r \in Range(s)} |-> Struct(CHOOSE r \in Range(s) : Id(r) = q)])
Forms(reps, mode) == TLCEval([q \in DOMAIN reps |-> TLCEval(Form(reps[q], mode))])
Orbit(F0, q) == F0[<<q[1], q[2]>>].root[q[3]]
LayerSets(x) == IF x.mode = "node" THEN {S \in SUBSET Range(x.lays) : Cardinality(S) = x.nl} ELSE {{}}

BadGen(x) ==
  LET o    == x.obs
      reps == Reps(o.reps)
      fs   == Forms(reps, x.mode)
      of(k) == {q \in DOMAIN reps : q[1] = k}
      labelled(k, ls) == LET Q == {q \in of(k) : fs[q].key[2] = ls}
                         IN  MapThenSumSet(LAMBDA q : fs[q].grp \div fs[q].aut, Q)
      orb(q, u) == CHOOSE v \in reps[q].n : fs[q].root[v] = fs[q].root[u] /\ \A w \in reps[q].n : fs[q].root[w] = fs[q].root[u] => v <= w
      orbits == UNION {{<<q[1], q[2], orb(q, u)>> : u \in reps[q].n} : q \in DOMAIN reps}
      nlorb(q, a) == CHOOSE b \in reps[q].n \X reps[q].l :
                       /\ fs[q].nlroot[b] = fs[q].nlroot[a]
                       /\ \A d \in reps[q].n \X reps[q].l : fs[q].nlroot[d] = fs[q].nlroot[a] => b[1] < d[1] \/ (b[1] = d[1] /\ b[2] <= d[2])
      has(t) == <<t[1], t[2]>> \in DOMAIN reps /\ t[3] \in reps[<<t[1], t[2]>>].n
      hasnl(t) == has(t) /\ t[4] \in reps[<<t[1], t[2]>>].l
      edgesok(r) == \A t \in Range(r[5]) : t[1] \in Range(r[3]) /\ t[2] \in Range(r[3]) /\ t[1] < t[2] /\ t[3] \in Range(r[4])
      flat == [i \in DOMAIN o.reps |-> Id(o.reps[i])]
  IN UNION {
      Is("graphlet-index", NoDup(flat), flat),
      Is("graphlet-sizes", {q[1] : q \in DOMAIN reps} \subseteq 2..x.n, flat),
      Check("graphlet-kind", o.reps, LAMBDA r : r[6] = 1),
      Check("graphlet-nodes", o.reps, LAMBDA r : SameBag(r[3], 0..r[1]-1)),
      Check("graphlet-layers", o.reps, LAMBDA r : NoDup(r[4]) /\ Range(r[4]) \subseteq Range(x.lays) /\ Len(r[4]) = x.nl),
      Check("graphlet-edges", o.reps, edgesok),
      IF \E r \in Range(o.reps) : ~edgesok(r) \/ Range(r[3]) # 0..r[1]-1 \/ Len(r[4]) # x.nl \/ r[1] > 5 \/ r[1] < 2 THEN {} ELSE UNION {
        UNION {Is("graphlet-not-connected", Connected(reps[q]), <<q, reps[q]>>) : q \in DOMAIN reps},
        UNION {Is("graphlet-twice", Cardinality({fs[q].key : q \in of(k)}) = Cardinality(of(k)), k) : k \in 2..x.n},
        UNION {UNION {Is("graphlet-missing", labelled(k, ls) = LabelledConnected(k, x.nl), <<k, ls, labelled(k, ls), LabelledConnected(k, x.nl)>>)
                      : ls \in LayerSets(x)} : k \in 2..x.n},
        Is("invariants", SameBag(o.inv, DOMAIN reps), o.inv),
        Check("invariant-of-graphlet", o.invok, LAMBDA q : q[3] = 1 /\ <<q[1], q[2]>> \in DOMAIN reps),
        Is("orbit-keys", SameBag([i \in DOMAIN o.auts |-> <<o.auts[i][1], o.auts[i][2], o.auts[i][3]>>], UNION {{<<q[1], q[2], u>> : u \in reps[q].n} : q \in DOMAIN reps}), Len(o.auts)),
        Check("orbit", o.auts, LAMBDA t : has(t) /\ t[4] = orb(<<t[1], t[2]>>, t[3])),
        Check("orbit-of-node-layer", o.autsnl, LAMBDA t : hasnl(t) /\ <<t[5], t[6]>> = nlorb(<<t[1], t[2]>>, <<t[3], t[4]>>)),
        Is("number-of-orbits-of-node-layers", Len(o.autsnl) = SumPairs({<<q, Cardinality(reps[q].n) * x.nl>> : q \in DOMAIN reps}), Len(o.autsnl)),
        Is("orbit-list", UNION {Range(t[2]) : t \in Range(o.lists)} = orbits /\ \A t \in Range(o.lists) : NoDup(t[2]) /\ \A q \in Range(t[2]) : q[1] = t[1], o.lists),
        Is("orbit-numbers", SameBag([i \in DOMAIN o.nums |-> <<o.nums[i][1], o.nums[i][2], o.nums[i][3]>>], {q \in orbits : q[1] <= x.upto}), o.nums),
        Is("orbit-number-range", SameBag([i \in DOMAIN o.nums |-> o.nums[i][4]], 0..Len(o.nums)-1), o.nums),
        Is("ordered-orbits", Len(o.ordered) = Len(o.nums) /\ \A t \in Range(o.nums) : t[4] \in 0..Len(o.ordered)-1 => o.ordered[t[4]+1] = <<t[1], t[2], t[3]>>, o.ordered),
        Check("orbit-name", o.names, LAMBDA t : has(t) /\ <<t[4], t[5], t[6]>> = <<t[1], t[2], orb(<<t[1], t[2]>>, t[3])>>)}}

(* -------------------------------------------------------- orbit counts *)
NetStruct(jn) == [n |-> Range(jn.nodes), l |-> Range(jn.layers), e |-> {<<t[1], t[2], t[3]>> : t \in Range(jn.es)}]
BadCounts(x) ==
  IF x.fn = "gcm" THEN {} ELSE
  LET o    == x.obs
      reps == Reps(o.reps)
      fs   == Forms(reps, x.mode)
      one(i) ==
        LET s    == NetStruct(x.nets[i])
            sets == GraphletSets(s, x.n)
            fm   == TLCEval([S \in sets |-> Form(Sub(s, S), x.mode).root])
            exp(v, q) == LET w == Orbit(fs, q) IN Cardinality({S \in sets : v \in S /\ fm[S][v] = w})
            r    == o.res[i]
            knowno == \A q \in Range(o.orbits) : <<q[1], q[2]>> \in DOMAIN reps /\ q[3] \in reps[<<q[1], q[2]>>].n
        IN IF ~knowno THEN {F("orbit-names", o.orbits)} ELSE UNION {
            UNION {Is(y[1], {q[1] : q \in Range(y[2])} = s.n /\ \A q \in Range(y[2]) : Len(q[2]) = Len(o.orbits), y[1]) \cup
                   UNION {UNION {Is(y[1], q[2][j] = exp(q[1], o.orbits[j]), <<i, q[1], o.orbits[j], q[2][j], exp(q[1], o.orbits[j])>>)
                                 : j \in DOMAIN o.orbits} : q \in Range(y[2])} : y \in {<<"orbit-counts", r.one>>, <<"orbit-counts-all", r.all>>}},
            Is("input-network", r.after = 1, <<i>>)}
  IN UNION {one(i) : i \in DOMAIN x.nets}

(* ----------------------------------------- graphlet correlation distance *)
RECURSIVE Isqrt(_, _, _)
Isqrt(v, lo, hi) == IF hi - lo <= 1 THEN lo ELSE LET m == (lo + hi) \div 2 IN IF m * m <= v THEN Isqrt(v, m, hi) ELSE Isqrt(v, lo, m)
Root(v) == Isqrt(v, 0, 46340)
\* rows with the dummy row; doubled ranks with ties
RanksOf(rows, c0) == [i \in DOMAIN rows |-> 2 * Cardinality({j \in DOMAIN rows : rows[j][c0] < rows[i][c0]})
                                            + Cardinality({j \in DOMAIN rows : rows[j][c0] = rows[i][c0]}) + 1]
Cov(a, b) == Len(a) * SumSeq([i \in DOMAIN a |-> a[i] * b[i]]) - SumSeq(a) * SumSeq(b)
BadGcm(x) ==
  LET o == x.obs
      one(i) ==
        LET w == x.tables[i]
            m == Len(w[1])
            rows == Append(w, [j \in 1..m |-> 1])
            R == TLCEval([j \in 1..m |-> RanksOf(rows, j)])
            g == o.gcms[i]
            exp(a, b) == LET v == Root(Cov(R[a], R[a]) * Cov(R[b], R[b]) * 1000) IN (Cov(R[a], R[b]) * 31623) \div v
        IN UNION {
            Is("gcm-shape", Len(g) = m /\ \A j \in DOMAIN g : Len(g[j]) = m, g),
            IF Len(g) # m \/ \E j \in DOMAIN g : Len(g[j]) # m THEN {} ELSE
            UNION {UNION {Is("gcm", Abs(g[a][b] - exp(a, b)) <= 2, <<i, a, b, g[a][b], exp(a, b)>>) : b \in 1..m} : a \in 1..m}}
      dist(a, b) == Root(1000000 * MapThenSumSet(LAMBDA q : LET d == x.mats[a][q[1]][q[2]] - x.mats[b][q[1]][q[2]] IN d * d,
                                                {q \in (1..Len(x.mats[a])) \X (1..Len(x.mats[a])) : q[1] < q[2]}))
      M == Len(x.mats)
  IN UNION {
      UNION {one(i) : i \in DOMAIN x.tables},
      Is("gcm-changes-input", o.same = 1, o.same),
      Is("gcd-matrix-shape", Len(o.gcd) = M /\ \A i \in DOMAIN o.gcd : Len(o.gcd[i]) = M, o.gcd),
      UNION {UNION {Is("gcd", Abs(o.gcd[i][j] - dist(i, j)) <= 1, <<i, j, o.gcd[i][j], dist(i, j)>>) : j \in DOMAIN o.gcd[i]} : i \in DOMAIN o.gcd},
      UNION {Is("gcd-single", Abs(y[3] - dist(y[1], y[2])) <= 1, y) : y \in Range(o.single)},
      Is("gcd-of-different-sizes", o.mismatch = 1, o.mismatch)}

(* ------------------------------------------------------ orbit equations *)
BadEqs(x) ==
  LET o    == x.obs
      reps == Reps(o.reps)
      fs   == Forms(reps, x.mode)
      orbits == {<<q[1], q[2], q[3]>> : q \in Range(o.orbits)}
      cls(q) == Orbit(fs, q)
      lays(q) == reps[<<q[1], q[2]>>].l
      cov  == TLCEval([q \in orbits |-> TLCEval(Covering(reps[<<q[1], q[2]>>], q[3], x.mode))])
      want == {{a, b} : a \in {q \in orbits : q[1] <= 3}, b \in orbits}
      okp(p) == LET a == CHOOSE y \in p : TRUE b == IF Cardinality(p) = 1 THEN a ELSE CHOOSE y \in p : y # a
                IN  lays(a) = lays(b) /\ a[1] + b[1] - 1 <= x.n
      E    == {p \in want : okp(p)}
      key(t) == {<<t[1][1], t[1][2], t[1][3]>>, <<t[2][1], t[2][2], t[2][3]>>}
      one(t) ==
        LET a == <<t[1][1], t[1][2], t[1][3]>> b == <<t[2][1], t[2][2], t[2][3]>>
            ca == cls(a) cb == cls(b)
            want2 == {<<q, Coef(cov[q], ca, cb)>> : q \in {y \in orbits : lays(y) = lays(a)}}
            exp == {y \in want2 : y[2] > 0}
            got == {<<<<y[1][1], y[1][2], y[1][3]>>, y[2]>> : y \in Range(t[3])}
        IN Is("equation", got = exp /\ Cardinality(got) = Len(t[3]), <<a, b, "extra", got \ exp, "missing", exp \ got>>)
      keys == [i \in DOMAIN o.eqs |-> key(o.eqs[i])]
      col(q) == <<q[1], q[2], q[3]>>
      row(t) == [q \in {col(y[1]) : y \in Range(t[3])} |-> (CHOOSE y \in Range(t[3]) : col(y[1]) = q)[2] % PRIME]
      inds == SelectSeq(o.eqs, LAMBDA t : t[4] = 1)
  IN UNION {
      Is("equations", SameBag(keys, E), <<"extra", Range(keys) \ E, "missing", E \ Range(keys), Len(keys)>>),
      UNION {IF key(t) \subseteq orbits THEN one(t) ELSE {F("equation-of-unknown-orbit", t)} : t \in Range(o.eqs)},
      Check("subtrahend", o.subs, LAMBDA t : t[3] = Within(reps[<<t[1][1], t[1][2]>>], t[1][3], cls(t[2]), x.mode)),
      IF x.ind = 0 THEN {} ELSE UNION {
        Is("independent-keys", o.indkeys = Len(inds), o.indkeys),
        Is("equations-of-independent", o.eqsame = 1, o.eqsame),
        Is("dependent-equations", RankMod([i \in DOMAIN inds |-> row(inds[i])], 0) = Len(inds), Len(inds)),
        Is("not-all-independent-equations", RankMod([i \in DOMAIN o.eqs |-> row(o.eqs[i])], 0) = Len(inds), <<Len(inds), Len(o.eqs)>>),
        Is("redundant-orbits", NoDup(o.reds) /\ Len(o.reds) = Len(inds), o.reds),
        Check("redundant-orbit", o.reds, LAMBDA q : \E t \in Range(inds) : col(q) \in {col(y[1]) : y \in Range(t[3])})}}
Bad0(x) == IF x.fn = "gcm" THEN BadGcm(x) ELSE BadCounts(x)
=============================================================================
