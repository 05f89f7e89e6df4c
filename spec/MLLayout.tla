------------------------------- MODULE MLLayout ------------------------------
(***************************************************************************)
(* Layouts.  One step of the force directed layout in fixed point numbers  *)
(* (thousandths), and what holds for the result of any number of steps.    *)
(***************************************************************************)
EXTENDS MLNet, SequencesExt

U == 1000
RECURSIVE Newton(_, _)
Newton(n, r) == LET s == (r + (n \div r)) \div 2 IN IF s >= r THEN r ELSE Newton(n, s)
ISqrt(n) == IF n <= 0 THEN 0 ELSE Newton(n, n \div 2 + 1)
MaxOf(S) == CHOOSE m \in S : \A y \in S : y <= m
MinOf(S) == CHOOSE m \in S : \A y \in S : m <= y
SumIn(S, f(_)) == LET q == SetToSeq(S) IN SumSeq([i \in DOMAIN q |-> f(q[i])])

\* keys of the layout: <<v>> if nodes are aligned, else node-layers
Keys(st, al) == IF al THEN {<<v>> : v \in st.el[1]} ELSE NodeLayers(st)
\* number of layers on which both are
Together(st, al, a, b) ==
  IF ~al THEN (IF Tail(a) = Tail(b) THEN 1 ELSE 0)
  ELSE IF st.full THEN 1
  ELSE Cardinality({l \in LayerTuples(st.el) : <<a[1]>> \o l \in NodeLayers(st) /\ <<b[1]>> \o l \in NodeLayers(st)})
\* number of springs between two keys
Springs(st, al, a, b) ==
  LET P == IF al THEN {q \in EdgePairs(st) : {q[1][1], q[2][1]} = {a[1], b[1]}}
           ELSE {q \in EdgePairs(st) : {q[1], q[2]} = {a, b}}
      way(d) == {q \in P : (IF al THEN q[1][1] = a[1] ELSE q[1] = a) = d}
      n(S) == IF al /\ st.full THEN (IF S = {} THEN 0 ELSE 1) ELSE Cardinality(S)
  IN  IF st.dir THEN n(way(TRUE)) + n(way(FALSE))
      ELSE IF al /\ st.full THEN n(P) ELSE Cardinality(P) \div 2

Dist2(p, q) == ((p[1] - q[1]) * (p[1] - q[1])) + ((p[2] - q[2]) * (p[2] - q[2]))
\* the force on a along coordinate k; nd: distance asked for
Force(st, al, cc, nd, a, k) ==
  SumIn(DOMAIN cc \ {a},
        LAMBDA b : LET d2 == Dist2(cc[a], cc[b])
                       d == ISqrt(d2)
                       df == cc[a][k] - cc[b][k]
                   IN  ((2 * Together(st, al, a, b) * nd * nd * df) \div d2) - ((Springs(st, al, a, b) * d * df) \div nd))
\* forces that fixed point numbers can hold
Small(st, al, cc, nd, fixd) ==
  \A a \in DOMAIN cc \ fixd : \A k \in 1..2 : LET f == Force(st, al, cc, nd, a, k) IN f < 20000 /\ f > -20000
\* one step: forces, then scaling to the box; fixed ones keep their place
Moved(st, al, cc, nd, box, fixd) ==
  [a \in DOMAIN cc |->
     IF a \in fixd THEN cc[a]
     ELSE LET f == <<Force(st, al, cc, nd, a, 1), Force(st, al, cc, nd, a, 2)>>
              len == IF Abs(f[1]) + Abs(f[2]) > 30000 THEN ISqrt(((f[1] \div 10) * (f[1] \div 10)) + ((f[2] \div 10) * (f[2] \div 10))) * 10
                     ELSE ISqrt((f[1] * f[1]) + (f[2] * f[2]))
              t == MaxOf({box[1], box[2]})
              by(x) == ((((len * 10) \div U) * x * (t \div 100)) \div U)
          IN  [k \in 1..2 |-> cc[a][k] + by(f[k])]]
Range1(cc, k) == <<MinOf({cc[a][k] : a \in DOMAIN cc}), MaxOf({cc[a][k] : a \in DOMAIN cc})>>
Boxed(cc, box, fixd) ==
  LET r == TLCEval(<<Range1(cc, 1), Range1(cc, 2)>>)
  IN  [a \in DOMAIN cc |-> IF a \in fixd THEN cc[a]
        ELSE [k \in 1..2 |-> IF r[k][1] = r[k][2] THEN box[k] \div 2 ELSE (((cc[a][k] - r[k][1]) * (box[k] \div 10)) \div (r[k][2] - r[k][1])) * 10]]
=============================================================================
