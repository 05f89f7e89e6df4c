--------------------------------- MODULE MCNx ---------------------------------
(***************************************************************************)
(* Exhaustive model checking of MLNx: a network and its NetworkX view as   *)
(* two interfaces to one state, on NN nodes.                               *)
(***************************************************************************)
EXTENDS MLNx

CONSTANTS NN, WS, NOEDGE
NegOne == -1      \* for configuration files
VARIABLES net, last
vars == <<net, last>>

Ns == 0..(NN - 1)
Ops == [k : {"vnode", "node"}, a : Ns]
       \cup [k : {"vedge", "vweight"}, a : Ns, b : Ns, w : WS]
       \cup [k : {"edge"}, a : Ns, b : Ns, w : WS \cup {NOEDGE}]
       \cup [k : {"vplain", "vdel"}, a : Ns, b : Ns]
       \cup {[k |-> "vclear"]}
Init == net = NewNet("ml", 0, FALSE, TRUE, NOEDGE, <<>>) /\ last = [k |-> "new"]
Do(o) == net' = NxApply(net, o) /\ last' = o
Next == \E o \in Ops : Do(o)
Spec == Init /\ [][Next]_vars
View == net

Inv == StateInv(net)
StepLaw(st, o, t) ==
  /\ NxRefused(st, o) => t = st
  /\ NxApply(t, o) = t \/ o.k = "vdel"
  /\ st.el[1] \subseteq t.el[1]
  /\ o.k = "vdel" => ~Has(t, o.a, o.b) /\ t.el = st.el
  /\ o.k = "vplain" => Has(t, o.a, o.b) /\ Wt(t, o.a, o.b) = IF Has(st, o.a, o.b) THEN Wt(st, o.a, o.b) ELSE 1
  /\ o.k \in {"vedge", "edge", "vdel", "vplain", "vweight"} =>
       \A x, y \in st.el[1] : {x, y} = {o.a, o.b} \/ (Has(t, x, y) = Has(st, x, y) /\ (Has(st, x, y) => Wt(t, x, y) = Wt(st, x, y)))
Steps == [][StepLaw(net, last', net')]_vars

Forest(E) == \* no cycle: every edge joins two components of the others
  \A s \in E : Cardinality(s) = 2 /\
     LET r == [net EXCEPT !.e = [q \in {p \in DOMAIN @ : {p[1][1], p[2][1]} \in E \ {s}} |-> @[q]]]
     IN  \A a, b \in s : a # b => b \notin Grow(r, {a})
Spans(E) == LET r == [net EXCEPT !.e = [q \in {p \in DOMAIN @ : {p[1][1], p[2][1]} \in E} |-> @[q]]]
            IN  Components(r) = Components(net)
Laws ==
  /\ UNION Components(net) = Nodes(net)
  /\ \A P, Q \in Components(net) : P = Q \/ P \cap Q = {}
  /\ \A s \in UEdges(net) : \E P \in Components(net) : s \subseteq P
  /\ \A a \in Nodes(net) : LET d == DistN(net, a) IN
       /\ d[a] = 0
       /\ \A b \in Nodes(net) : d[b] = DistN(net, b)[a] /\ (d[b] < FARN <=> b \in Grow(net, {a}))
  /\ MstWeight(net) = Min({MapThenSumSet(LAMBDA s : WtOf(net, s), E) : E \in {F \in SUBSET UEdges(net) : Forest(F) /\ Spans(F)}})
  /\ MaxstWeight(net) = Max({MapThenSumSet(LAMBDA s : WtOf(net, s), E) : E \in {F \in SUBSET UEdges(net) : Forest(F) /\ Spans(F)}})
  /\ \A k \in 0..3 : KCore(net, k, Nodes(net)) = UNION {S \in SUBSET Nodes(net) : \A a \in S : Cardinality(NbN(net, a) \cap S) >= k}
=============================================================================
