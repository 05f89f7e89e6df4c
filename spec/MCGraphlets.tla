----------------------------- MODULE MCGraphlets ------------------------------
(***************************************************************************)
(* Model checking of the canonical forms, orbits and counts of             *)
(* MLGraphlets on every structure of K nodes and L layers.                 *)
(***************************************************************************)
EXTENDS MLGraphlets

CONSTANTS K, L, MODE
VARIABLE s

NsK == 0..(K - 1)
LsL == 0..(L - 1)
Slots == {<<a, b, l>> \in NsK \X NsK \X LsL : a < b}
All == [n : {NsK}, l : {LsL}, e : SUBSET Slots]
Init == s \in All
Next == UNCHANGED s
Spec == Init /\ [][Next]_s

\* the structure with nodes and layers renamed by h
Image(h, x) ==
  [x EXCEPT !.e = {LET a == h[1][t[1] + 1] b == h[1][t[2] + 1] IN <<Min({a, b}), Max({a, b}), h[2][t[3] + 1]>> : t \in x.e}]
H == GroupOf(K, L, MODE)
Laws ==
  LET f == Form(s, MODE)
      auts == {h \in H : Image(h, s) = s} IN
  /\ f.aut = Cardinality(auts) /\ f.grp = Cardinality(H)
  \* equal forms are what renaming gives (the orbit of s has group / automorphisms members)
  /\ Cardinality({Image(h, s) : h \in H}) * f.aut = f.grp
  /\ \A h \in H : LET g == Form(Image(h, s), MODE) IN
       g.key = f.key /\ \A a \in NsK : g.root[h[1][a + 1]] = f.root[a]
  \* two nodes have one root class iff an automorphism maps one to the other
  /\ \A a, b \in NsK : (f.root[a] = f.root[b]) <=> \E h \in auts : h[1][a + 1] = b
  /\ \A q, r \in NsK \X LsL : (f.nlroot[q] = f.nlroot[r]) <=> \E h \in auts : h[1][q[1] + 1] = r[1] /\ h[2][q[2] + 1] = r[2]
\* the number of labelled connected structures, and of all by their classes
ASSUME Cardinality({x \in All : Connected(x)}) = LabelledConnected(K, L)
=============================================================================
