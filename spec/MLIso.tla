-------------------------------- MODULE MLIso --------------------------------
(***************************************************************************)
(* Multilayer isomorphisms: one bijection per aspect (the nodes are aspect *)
(* 0), the identity in the aspects that may not be permuted, which maps    *)
(* node-layers onto node-layers and edges onto edges.                      *)
(***************************************************************************)
EXTENDS MLBase

BijectionsBetween(S, T) ==
  IF Cardinality(S) # Cardinality(T) THEN {}
  ELSE {f \in [S -> T] : \A x, y \in S : x # y => f[x] # f[y]}
Identities(S, T) == IF S = T THEN {[x \in S |-> x]} ELSE {}

Candidates(s, t, allowed) ==
  LET B == [k \in DOMAIN s.el |-> IF (k-1) \in allowed THEN BijectionsBetween(s.el[k], t.el[k])
                                  ELSE Identities(s.el[k], t.el[k])]
  IN  CASE Len(B) = 1 -> {<<f>> : f \in B[1]}
        [] Len(B) = 2 -> {<<f, g>> : f \in B[1], g \in B[2]}
        [] Len(B) = 3 -> {<<f, g, h>> : f \in B[1], g \in B[2], h \in B[3]}
        [] Len(B) = 4 -> {<<f, g, h, i>> : f \in B[1], g \in B[2], h \in B[3], i \in B[4]}

MapNL(m, a) == [k \in DOMAIN a |-> m[k][a[k]]]
IsIsomorphism(s, t, m) ==
  /\ {MapNL(m, a) : a \in NodeLayers(s)} = NodeLayers(t)
  /\ {<<MapNL(m, q[1]), MapNL(m, q[2])>> : q \in EdgePairs(s)} = EdgePairs(t)

\* cheap necessary conditions first
Sizes(s) == <<[k \in DOMAIN s.el |-> Cardinality(s.el[k])], Cardinality(NodeLayers(s)), Cardinality(EdgePairs(s))>>
Isomorphisms(s, t, allowed) ==
  IF s.asp # t.asp \/ Sizes(s) # Sizes(t) THEN {}
  ELSE LET ns == NodeLayers(s) nt == NodeLayers(t) es == EdgePairs(s) et == EdgePairs(t)
       IN  {m \in Candidates(s, t, allowed) :
              /\ \A a \in ns : MapNL(m, a) \in nt
              /\ \A q \in es : <<MapNL(m, q[1]), MapNL(m, q[2])>> \in et}
Isomorphic(s, t, allowed) == Isomorphisms(s, t, allowed) # {}
=============================================================================
