----------------------------- MODULE MLGraphlets ------------------------------
(***************************************************************************)
(* Multiplex graphlets: connected node-aligned multiplex networks of few   *)
(* nodes, up to permutations of the nodes and ("all", "path") the layers.  *)
(*                                                                         *)
(* A structure is [n: set of nodes, l: set of layers, e: set of            *)
(* <<a, b, layer>> with a < b].  mode: "node" (only nodes may be           *)
(* permuted), "all", or "path" (layer permutations must preserve the order *)
(* coupling, i.e. be the identity or the reversal).                        *)
(***************************************************************************)
EXTENDS MLBase, SequencesExt

Rank(S) == [a \in S |-> Cardinality({b \in S : b < a})]

PermFns(k) == {f \in [1..k -> 0..k-1] : \A i, j \in 1..k : i # j => f[i] # f[j]}
P1 == PermFns(1)  P2 == PermFns(2)  P3 == PermFns(3)  P4 == PermFns(4)  P5 == PermFns(5)
Perms(k) == CASE k = 1 -> P1 [] k = 2 -> P2 [] k = 3 -> P3 [] k = 4 -> P4 [] k = 5 -> P5
LayerPerms(m, mode) ==
  CASE mode = "node" -> {[i \in 1..m |-> i - 1]}
    [] mode = "all" -> Perms(m)
    [] mode = "path" -> {[i \in 1..m |-> i - 1], [i \in 1..m |-> m - i]}
GroupOf(k, m, mode) == {<<f, g>> : f \in Perms(k), g \in LayerPerms(m, mode)}
G == TLCEval([x \in (1..5) \X (1..3) \X {"node", "all", "path"} |-> GroupOf(x[1], x[2], x[3])])

Pow2 == TLCEval([i \in 0..25 |-> 2^i])
\* the place of the pair {a, b} of positions 0.., times the number of layers
PairAt == TLCEval([q \in (0..4) \X (0..4) |-> IF q[1] < q[2] THEN (q[2] * (q[2] - 1)) \div 2 + q[1]
                                              ELSE IF q[2] < q[1] THEN (q[1] * (q[1] - 1)) \div 2 + q[2] ELSE 0])
Code(h, m, ES) == MapThenSumSet(LAMBDA t : Pow2[PairAt[<<h[1][t[1]], h[1][t[2]]>>] * m + h[2][t[3]]], ES)

\* canonical form of a structure: the class, the class of every node, and the size of its automorphism group
Form(s, mode) ==
  LET k  == Cardinality(s.n)
      m  == Cardinality(s.l)
      rn == Rank(s.n)
      rl == Rank(s.l)
      ES == {<<rn[t[1]] + 1, rn[t[2]] + 1, rl[t[3]] + 1>> : t \in s.e}
      H  == G[<<k, m, mode>>]
      cs == TLCEval([h \in H |-> Code(h, m, ES)])
      mn == Min({cs[h] : h \in H})
      B  == {h \in H : cs[h] = mn}
      ls == IF mode = "node" THEN s.l ELSE {}
  IN [key |-> <<k, ls, mn>>,
      aut |-> Cardinality(B), grp |-> Cardinality(H),
      root |-> TLCEval([a \in s.n |-> <<<<k, ls, mn>>, Min({h[1][rn[a] + 1] : h \in B})>>]),
      nlroot |-> [q \in s.n \X s.l |-> Min({h[1][rn[q[1]] + 1] * m + h[2][rl[q[2]] + 1] : h \in B})]]

Sub(s, S) == [n |-> S, l |-> s.l, e |-> {t \in s.e : t[1] \in S /\ t[2] \in S}]
RECURSIVE Reach(_, _)
Reach(s, S) == LET T == S \cup {t[1] : t \in {x \in s.e : x[2] \in S}} \cup {t[2] : t \in {x \in s.e : x[1] \in S}}
               IN  IF T = S THEN S ELSE Reach(s, T)
Connected(s) == s.n # {} /\ Reach(s, {CHOOSE a \in s.n : TRUE}) = s.n

(* --- how many labelled connected networks there are on k nodes ---------- *)
RECURSIVE Choose(_, _)
Choose(n, k) == IF k = 0 THEN 1 ELSE (Choose(n - 1, k - 1) * n) \div k
Labelled(k, m) == 2^(m * ((k * (k - 1)) \div 2))
RECURSIVE LabelledConnected(_, _)
LabelledConnected(k, m) ==
  Labelled(k, m) - MapThenSumSet(LAMBDA j : Choose(k - 1, j - 1) * LabelledConnected(j, m) * Labelled(k - j, m), 1..k-1)

(* --- orbit counts: v's graphlets of at most n nodes --------------------- *)
GraphletSets(s, n) == {S \in SUBSET s.n : Cardinality(S) \in 2..n /\ Connected(Sub(s, S))}

(* --- orbit equations ---------------------------------------------------- *)
\* For a node u of a graphlet: all pairs of connected node sets through u, both smaller than the
\* graphlet, which together make the graphlet.  r: class of u in the subgraph induced by a set
PairsThrough(s, u, mode) ==
  LET C == {S \in SUBSET s.n : u \in S /\ S # s.n /\ Cardinality(S) > 1 /\ Connected(Sub(s, S))}
      r == TLCEval([S \in C |-> Form(Sub(s, S), mode).root[u]])
  IN  {<<S, T, r[S], r[T]>> : S \in C, T \in C} 
Covering(s, u, mode) == {q \in PairsThrough(s, u, mode) : q[1] \cup q[2] = s.n}
\* coefficient of the class of u in the equation of the classes a and b
Coef(cov, a, b) ==
  IF a = b THEN Cardinality({{q[1], q[2]} : q \in {x \in cov : x[3] = a /\ x[4] = a /\ x[1] # x[2]}})
  ELSE Cardinality({q \in cov : q[3] = a /\ q[4] = b})
\* the most subgraphs of class b at the root u of a graphlet which share nothing but u
Occurrences(s, u, b, mode) ==
  {S \in SUBSET s.n : u \in S /\ Cardinality(S) = b[1][1] /\ Connected(Sub(s, S)) /\ Form(Sub(s, S), mode).root[u] = b}
Within(s, u, b, mode) ==
  Max({Cardinality(Q) : Q \in {R \in SUBSET Occurrences(s, u, b, mode) : \A S, T \in R : S # T => S \cap T = {u}}})

(* --- rank of integer rows modulo a prime (a lower bound of the rank) ---- *)
PRIME == 10007
RECURSIVE PowMod(_, _)
PowMod(x, k) == IF k = 0 THEN 1 ELSE LET h == PowMod(x, k \div 2) q == (h * h) % PRIME IN IF k % 2 = 0 THEN q ELSE (q * x) % PRIME
RECURSIVE RankMod(_, _)
\* rows: sequence of sparse rows (functions from columns to nonzero residues)
RankMod(rows, acc) ==
  IF rows = <<>> THEN acc
  ELSE LET r == Head(rows) rest == Tail(rows)
       IN  IF DOMAIN r = {} THEN RankMod(rest, acc)
           ELSE LET p == CHOOSE x \in DOMAIN r : TRUE
                    inv == PowMod(r[p], PRIME - 2)
                    at(f, x) == IF x \in DOMAIN f THEN f[x] ELSE 0
                    elim(f) == IF p \notin DOMAIN f THEN f
                               ELSE LET w == (f[p] * inv) % PRIME
                                        g == TLCEval([x \in DOMAIN f \cup DOMAIN r |-> (at(f, x) + (PRIME - w) * at(r, x)) % PRIME])
                                    IN  TLCEval([x \in {y \in DOMAIN g : g[y] # 0} |-> g[x]])
                IN  RankMod([i \in 1..Len(rest) |-> TLCEval(elim(rest[i]))], acc + 1)
=============================================================================
