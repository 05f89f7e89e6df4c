-------------------------------- MODULE MCNet --------------------------------
(***************************************************************************)
(* Exhaustive model checking of the state machine MLNet on small           *)
(* universes: all reachable states satisfy StateInv, and every transition  *)
(* satisfies StepLaw (what a call may and may not change).                 *)
(* CUT restricts the universe: edges are written only when the node-layers *)
(* exist ("old") or always ("any").                                        *)
(***************************************************************************)
EXTENDS MLNet, SequencesExt

CONSTANTS KIND, ASP, DIR, FULL, NOEDGE, COUP, NN, NL, WS, CUT

NegOne == -1      \* for configuration files
VARIABLES net, last
vars == <<net, last>>

CoupRule(name) ==
  CASE name = "cat" -> [t |-> "categorical", w |-> 2]
    [] name = "ord" -> [t |-> "ordinal", w |-> 2]
    [] name = "none" -> [t |-> "none", w |-> 0]
    [] name = "net" -> [t |-> "network", w |-> 0, e |-> IF DIR THEN <<<<0, 1, 3>>>> ELSE <<<<0, 1, 3>>, <<1, 0, 3>>>>]
Cfg == [kind |-> KIND, asp |-> ASP, dir |-> DIR, full |-> FULL, noedge |-> NOEDGE,
        coup |-> IF KIND = "mx" THEN [k \in 1..ASP |-> CoupRule(COUP)] ELSE <<>>]

Els == [k \in 1..(ASP + 1) |-> IF k = 1 THEN 0..(NN - 1) ELSE 0..(NL - 1)]
PutNode == [k : {"node"}, n : Els[1]]
PutNodeAt == IF ASP = 0 THEN {} ELSE [k : {"nodeat"}, n : Els[1], l : LayerTuples(Els)]
PutLayer == UNION {[k : {"layer"}, n : Els[x + 1], x : {x}] : x \in 0..ASP}
PutEdges == {o \in [k : {"set"}, a : Product(Els), b : Product(Els), w : WS \cup {NOEDGE}] :
               KIND = "ml" \/ Cardinality(DiffAt(o.a, o.b)) <= 1}
PutIntra == IF KIND # "mx" THEN {} ELSE
  {o \in [k : {"iset"}, l : LayerTuples(Els), a : Els[1], b : Els[1], w : WS \cup {NOEDGE}] : o.a # o.b}
PutINode == IF KIND # "mx" THEN {} ELSE [k : {"inode"}, l : LayerTuples(Els), n : Els[1]]
Assign == IF KIND # "mx" THEN {} ELSE
  {o \in [k : {"aset"}, l : LayerTuples(Els), ns : {<<0>>, <<0, 1>>}, es : {<<>>} \cup {<<<<0, 1, w>>>> : w \in WS}] :
     o.es # <<>> => Len(o.ns) = 2}
AllOps == PutNode \cup PutNodeAt \cup PutLayer \cup PutEdges \cup PutIntra \cup PutINode \cup Assign

Allowed(st, o) ==
  /\ Enabled(st, o) \/ Rejected(st, o)
  /\ CUT = "old" => CASE o.k = "set" -> {o.a, o.b} \subseteq NodeLayers(st)
                      [] o.k = "iset" -> {<<o.a>> \o o.l, <<o.b>> \o o.l} \subseteq NodeLayers(st)
                      [] OTHER -> TRUE

Init == net = New(Cfg) /\ last = [k |-> "new"]
Do(o) == Allowed(net, o) /\ net' = Apply(net, o) /\ last' = o
Next == \E o \in AllOps : Do(o)
Spec == Init /\ [][Next]_vars
View == net

Inv == StateInv(net)

(* ------------------------------------------------ laws of the transitions *)
Ends(o) == IF o.k = "iset" THEN <<<<o.a>> \o o.l, <<o.b>> \o o.l>> ELSE <<o.a, o.b>>
Written(st, o) == o.k \in {"set", "iset"} /\ Enabled(st, o)
\* C01: a read returns the last write, and no other edge is changed
WriteLaw(st, o, t) ==
  Written(st, o) =>
    LET a == Ends(o)[1] b == Ends(o)[2] N == NodeLayers(st) IN
    /\ Link(t, a, b) = o.w
    /\ ~st.dir => Link(t, b, a) = o.w
    /\ \A x, y \in N : (<<x, y>> = <<a, b>> \/ (~st.dir /\ <<y, x>> = <<a, b>>)) \/ Link(t, x, y) = Link(st, x, y)
    /\ {a, b} \subseteq NodeLayers(t)
    \* a second write forgets the first one
    /\ \A w \in WS \cup {NOEDGE} : Apply(t, [o EXCEPT !.w = w]) = Apply(st, [o EXCEPT !.w = w])
\* calls that do not write edges leave those there are
KeepLaw(st, o, t) ==
  (o.k \in {"node", "nodeat", "layer", "inode"}) =>
    /\ t.e = st.e
    /\ \A x, y \in NodeLayers(st) : Link(t, x, y) = Link(st, x, y)
\* C02: nothing is forgotten, and only what the call names is new
Named(o, k) ==
  CASE o.k = "node" -> IF k = 1 THEN {o.n} ELSE {}
    [] o.k = "nodeat" -> IF k = 1 THEN {o.n} ELSE {o.l[k-1]}
    [] o.k = "layer" -> IF o.x = k - 1 THEN {o.n} ELSE {}
    [] o.k = "set" -> {o.a[k], o.b[k]}
    [] o.k = "iset" -> IF k = 1 THEN {o.a, o.b} ELSE {o.l[k-1]}
    [] o.k = "inode" -> IF k = 1 THEN {o.n} ELSE {o.l[k-1]}
    [] o.k = "aset" -> IF k = 1 THEN Range(o.ns) ELSE {o.l[k-1]}
GrowLaw(st, o, t) ==
  /\ \A k \in DOMAIN st.el : st.el[k] \subseteq t.el[k] /\ t.el[k] \subseteq st.el[k] \cup Named(o, k)
  /\ o.k # "aset" => NodeLayers(st) \subseteq NodeLayers(t)
  /\ o.k = "aset" => \A a \in NodeLayers(st) : Tail(a) = o.l \/ a \in NodeLayers(t)
\* C03: only the degrees of the ends change, by at most one
DegLaw(st, o, t) ==
  Written(st, o) /\ st.kind = "ml" =>
    \A a \in NodeLayers(st), m \in {"out", "in", "tot"} :
      LET d == DegView(t, a, m, NoDims(t)) - DegView(st, a, m, NoDims(st)) IN
      /\ d \in -1..1
      /\ d # 0 => a \in Range(Ends(o))
      /\ d = 1 => ~HasEdge(st, Ends(o)[1], Ends(o)[2])
\* a rejected call changes nothing; every call can be repeated
RepeatLaw(st, o, t) == (Rejected(st, o) => t = st) /\ Apply(t, o) = t
StepLaw(st, o, t) ==
  WriteLaw(st, o, t) /\ KeepLaw(st, o, t) /\ GrowLaw(st, o, t) /\ DegLaw(st, o, t) /\ RepeatLaw(st, o, t)
Steps == [][StepLaw(net, last', net')]_vars

(* -------------------------------------------------- laws of the queries *)
\* C04: every edge is seen from its ends
EdgeLaw ==
  /\ \A v \in EdgeValues(net) : v[2] # NOEDGE
  /\ NumEdges(net) = IF DIR THEN Cardinality(EdgePairs(net))
                     ELSE LET s == Cardinality({p \in EdgePairs(net) : p[1] = p[2]})
                          IN  s + ((Cardinality(EdgePairs(net)) - s) \div 2)
\* C05: the views of a node-layer by node, and by layer, partition its neighbours
ViewLaw ==
  \A a \in NodeLayers(net), m \in {"out", "in", "tot"} :
    \A k \in 1..(ASP + 1) :
      LET at(x) == [NoDims(net) EXCEPT ![k] = x] IN
      /\ DegView(net, a, m, NoDims(net)) = SumPairs({<<x, DegView(net, a, m, at(x))>> : x \in net.el[k]})
      /\ StrView(net, a, m, NoDims(net)) = SumPairs({<<x, StrView(net, a, m, at(x))>> : x \in net.el[k]})
\* C06: coupling edges join copies of one node in one aspect, whatever was written
CoupLaw ==
  KIND = "mx" =>
    \A p \in EdgePairs(net) :
      /\ Cardinality(DiffAt(p[1], p[2])) = 1
      /\ p[1][1] = p[2][1] => p[1] \in NodeLayers(net) /\ p[2] \in NodeLayers(net) /\ p \notin DOMAIN net.e
      /\ p[1][1] # p[2][1] => p \in DOMAIN net.e
\* C08: a network with explicit edges has the same edges
EqLaw ==
  /\ SameStructure(net, net)
  /\ KIND = "ml" => Explicit(net) = net
  /\ EdgeValues([Explicit(net) EXCEPT !.kind = "ml"]) = EdgeValues(net)
Laws == EdgeLaw /\ ViewLaw /\ CoupLaw /\ EqLaw
=============================================================================
