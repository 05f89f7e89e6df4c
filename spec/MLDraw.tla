------------------------------- MODULE MLDraw --------------------------------
(***************************************************************************)
(* The figure of a network with one aspect: which value every property of  *)
(* every element gets, and where everything is drawn.                      *)
(*                                                                         *)
(* Values are tagged: <<"num", n>> (n sixtieths), <<"tag", i>> (a constant *)
(* of the palette of the property), <<"lay", l>>, <<"node", v>> and        *)
(* <<"nl", v, l>> (names of elements), <<"cm", n>> (the colour a colour    *)
(* map gives to n sixtieths), <<"none">>, and <<"any", S>> for values      *)
(* given in the order of an iteration: one of S.                           *)
(* Elements: layers <<l>>, node-layers <<v, l>>, edges <<a, b>>.           *)
(***************************************************************************)
EXTENDS MLNet, SequencesExt

NONE == <<"none">>
Wild(v) == v[1] = "any"
Num(n) == <<"num", n>>
Tag(i) == <<"tag", i>>

Root(n) == CHOOSE r \in 1..(n + 1) : r * r = n \/ r = n + 1

\* an atom of a value, for functions that depend on it
Atom(v) == CASE v[1] = "num" -> v[2] \div 60 [] v[1] = "nl" -> v[2] + v[3]
             [] v[1] = "none" -> 0 [] OTHER -> v[2]
App(f, v) == CASE f = "inc" -> Num(v[2] + 60)
               [] f = "pal" -> Tag(Atom(v) % 4)
               [] f = "par" -> Tag(Atom(v) % 2)
               [] f = "big" -> Num(60 * (1 + (Atom(v) % 3)))
               [] f = "val" -> Num(6 * (1 + (Atom(v) % 3)))
               [] OTHER -> v

Has(r, k) == k \in DOMAIN r
ByRule(st, fam, r, it) ==
  LET n == Cardinality(st.el[1])
  IN CASE r.rule = "name" -> IF fam = "layer" THEN <<"lay", it[1]>> ELSE <<"nl", it[1], it[2]>>
       [] r.rule = "nodename" -> <<"node", it[1]>>
       [] r.rule = "degree" -> Num(60 * DegView(st, it, "tot", NoDims(st)))
       [] r.rule = "scaled" -> Num((IF Has(r, "coeff") THEN r.coeff ELSE 60) \div Root(n))
       [] r.rule = "edgeweight" -> Num(60 * Link(st, it[1], it[2]))
       [] r.rule = "layer" -> IF fam = "node" THEN <<"lay", it[2]>>
                              ELSE IF it[1][2] = it[2][2] THEN <<"lay", it[1][2]>> ELSE <<"tag", 3>>
       [] r.rule = "edgetype" -> IF it[1][2] = it[2][2] THEN (IF Has(r, "intra") THEN r.intra ELSE NONE)
                                 ELSE (IF Has(r, "inter") THEN r.inter ELSE NONE)
       [] OTHER -> NONE
\* modifiers: propscale, then f, then scaleby, then colormap
Modify(st, r, v0) ==
  LET n == Cardinality(st.el[1])
      v1 == IF Has(r, "propscale") THEN Num((v0[2] * r.propscale) \div (60 * Root(n))) ELSE v0
      v2 == IF Has(r, "f") THEN App(r.f, v1) ELSE v1
      v3 == IF Has(r, "scaleby") THEN Num((v2[2] * r.scaleby) \div 60) ELSE v2
  IN  IF Has(r, "colormap") THEN <<"cm", Min({v3[2], 60})>> ELSE v3
\* the value of object i (from 1) of an iteration: its number, the first one 0, or that of a sequence
Nth(st, r, i) == IF Has(r, "seq") THEN r.seq[1 + ((i - 1) % Len(r.seq))] ELSE Modify(st, r, Num(60 * (i - 1)))
\* how often an iteration can ask
Asks(st, fam) == CASE fam = "layer" -> Cardinality(LayerTuples(st.el)) [] fam = "node" -> Cardinality(NodeLayers(st))
                   [] OTHER -> (IF st.dir THEN 1 ELSE 2) * Cardinality(EdgePairs(st))
Given(st, fam, P, it) ==
  LET exact == {d[2] : d \in {y \in Range(P.dict) : y[1] = it}}
      other == IF fam = "edge" /\ ~st.dir THEN {d[2] : d \in {y \in Range(P.dict) : y[1] = <<it[2], it[1]>>}} ELSE {}
  IN  IF exact # {} THEN exact ELSE other
Val(st, fam, P, it) ==
  LET g == Given(st, fam, P, it)
  IN  IF g # {} THEN CHOOSE v \in g : TRUE
      ELSE IF ~Has(P.rule, "rule") THEN P.def
      ELSE IF P.rule.rule = "order" THEN <<"any", {Nth(st, P.rule, i) : i \in 1..Asks(st, fam)}>>
      ELSE LET v == ByRule(st, fam, P.rule, it)
           IN  IF v = NONE THEN P.def ELSE Modify(st, P.rule, v)

Fits(exp, got) == IF Wild(exp) THEN got \in exp[2] ELSE exp = got
\* values given in the order of an iteration
InOrder(st, fam, P, its) == {it \in its : Given(st, fam, P, it) = {}}
Numbered(st, r, m) == [i \in 1..m |-> Nth(st, r, i)]
Count(s, v) == Cardinality({i \in DOMAIN s : s[i] = v})
SameMulti(s, t) == Len(s) = Len(t) /\ \A v \in Range(s) \cup Range(t) : Count(s, v) = Count(t, v)

(* ------------------------------- geometry ------------------------------ *)
RECURSIVE GCD(_, _)
GCD(a, b) == IF b = 0 THEN a ELSE GCD(b, a % b)
Q(a, b) == LET g == GCD(IF a < 0 THEN -a ELSE a, b) IN <<a \div g, b \div g>>
QAdd(p, q) == Q((p[1] * q[2]) + (q[1] * p[2]), p[2] * q[2])
\* the point i of m between p and q
QMid(p, q, i, m) == Q(((m - i) * p[1] * q[2]) + (i * q[1] * p[2]), m * p[2] * q[2])
\* x, size and padding in 120ths, 60ths and 120ths
Scale(xs, sz, pad, x) ==
  LET lo == Min({xs[k] - sz[k] : k \in DOMAIN xs})
      hi == Max({xs[k] + sz[k] : k \in DOMAIN xs})
  IN  Q(x - lo + pad, hi - lo + (2 * pad))
\* heights of the layers, the first one on the top; ord: order of the layers
Orders(st, P) ==
  LET L == LayerTuples(st.el)
      key(l) == Val(st, "layer", P, l)[2]
  IN  {s \in [1..Cardinality(L) -> L] : IsInjective(s) /\ \A i, j \in 1..Cardinality(L) : i < j => key(s[i]) <= key(s[j])}
=============================================================================
