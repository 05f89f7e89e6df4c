------------------------------ MODULE TraceIso -------------------------------
(***************************************************************************)
(* Recorded isomorphism queries (C21, C25).                               *)
(***************************************************************************)
EXTENDS TraceBase, MLIso

InputA(x) == BadNet("input", NetOf(x.net), x.obs.after)
\* a reported permutation: per aspect a list of <<from, to>>; absent elements are fixed
PermOf(st, p) ==
  [k \in DOMAIN st.el |-> [a \in st.el[k] |->
      LET hit == {i \in DOMAIN p[k] : p[k][i][1] = a}
      IN  IF hit = {} THEN a ELSE p[k][CHOOSE i \in hit : TRUE][2]]]
PermShape(st, p, fixed) ==
  /\ Len(p) = st.asp + 1
  /\ \A k \in DOMAIN p : NoDup([i \in DOMAIN p[k] |-> p[k][i][1]])
  /\ \A k \in DOMAIN p : {p[k][i][1] : i \in DOMAIN p[k]} \subseteq st.el[k]
  /\ fixed => \A k \in DOMAIN p : {p[k][i][1] : i \in DOMAIN p[k]} = st.el[k]
  /\ ~fixed => \A k \in DOMAIN p : \A i \in DOMAIN p[k] : p[k][i][1] # p[k][i][2]

BadIso(x) ==
  LET s == NetOf(x.net) t == NetOf(x.net2) o == x.obs
      al == Range(x.allowed)
      I == Isomorphisms(s, t, al)
      good(p, fixed) == PermShape(s, p, fixed) /\ PermOf(s, p) \in I
  IN UNION {
       Is("isomorphic", o.iso = (IF I # {} THEN 1 ELSE 0), <<o.iso, I # {}>>),
       Is("isomorphic-symmetric", o.iso2 = (IF I # {} THEN 1 ELSE 0), <<o.iso2, I # {}>>),
       Is("isomorphism-none", o.none = (IF I = {} THEN 1 ELSE 0), <<o.none, I # {}>>),
       IF o.none = 1 \/ I = {} THEN {} ELSE
         Is("isomorphism-mapping", good(o.map, FALSE), o.map) \cup
         Is("isomorphism-mapping-with-fixed", good(o.mapf, TRUE), o.mapf),
       InputA(x)}

(* ------------------------------------------------------------------- C25 *)
\* the group generated by a set of permutations (one function per aspect)
Compose(g, h) == [k \in DOMAIN g |-> [a \in DOMAIN g[k] |-> h[k][g[k][a]]]]
RECURSIVE Closure(_, _)
Closure(G, gens) ==
  LET N == G \cup {Compose(g, h) : g \in G, h \in gens}
  IN  IF N = G THEN G ELSE Closure(N, gens)
Generated(st, gens) == Closure({[k \in DOMAIN st.el |-> [a \in st.el[k] |-> a]]}, gens)

BadInv(x) ==
  LET s == NetOf(x.net) t == NetOf(x.net2) o == x.obs
      al == Range(x.allowed)
      I == Isomorphisms(s, t, al)
      b == IF I # {} THEN 1 ELSE 0
      Aut == Isomorphisms(s, s, al)
      gens(ps) == {PermOf(s, p) : p \in Range(ps)}
      shape(ps, fixed) == \A p \in Range(ps) : PermShape(s, p, fixed)
  IN UNION {
       Is("complete-invariant", o.eq = b, <<o.eq, b>>),
       Is("invariant-hash", o.hash = 1, o.hash),
       Is("invariant-repeatable", o.again = 1, o.again),
       Is("backends-agree", o.nx = b /\ o.bliss = b, <<o.nx, o.bliss, b>>),
       Is("bliss-none", o.none = 1 - b, <<o.none, b>>),
       IF o.none = 1 \/ I = {} THEN {}
       ELSE Is("bliss-mapping", PermShape(s, o.mapf, TRUE) /\ PermOf(s, o.mapf) \in I, o.mapf),
       IF ~shape(o.gens, FALSE) \/ ~shape(o.gensf, TRUE) THEN {F("generator-shape", <<o.gens, o.gensf>>)}
       ELSE UNION {
         Is("generators-are-automorphisms", gens(o.gens) \subseteq Aut, gens(o.gens) \ Aut),
         Is("generators-with-fixed", gens(o.gensf) \subseteq Aut /\ Generated(s, gens(o.gensf)) = Aut, o.gensf),
         IF gens(o.gens) \subseteq Aut
         THEN Is("generators-generate", Generated(s, gens(o.gens)) = Aut, <<o.gens, Cardinality(Aut)>>) ELSE {}},
       InputA(x)}
=============================================================================
