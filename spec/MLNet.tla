-------------------------------- MODULE MLNet --------------------------------
(***************************************************************************)
(* The state machine of a network object: its state is a network (MLBase)  *)
(* and its transitions are the public mutators of the library.             *)
(* An operation is a record; field k names the mutator:                    *)
(*   node   add_node(n)                                                    *)
(*   nodeat add_node(n, layer=l)                                           *)
(*   layer  add_layer(n, aspect=x)                                         *)
(*   set    net[...] = w   for the node-layer pair a,b                     *)
(*   iset   net.A[l][i,j] = w           (multiplex)                        *)
(*   inode  net.A[l].add_node(n)        (multiplex)                        *)
(*   aset   net.A[l] = monoplex network with nodes ns and edges es         *)
(* Extra fields (f: the notation used) do not matter to the abstract state.*)
(***************************************************************************)
EXTENDS MLBase

AssignLayer(st, l, ns, es) ==
  LET old  == {p \in DOMAIN st.e : Tail(p[1]) = l}
      ends == {<<ed[1]>> \o l : ed \in es} \cup {<<ed[2]>> \o l : ed \in es}
      nds  == {<<n>> \o l : n \in ns} \cup ends
      new  == {<<<<ed[1]>> \o l, <<ed[2]>> \o l, ed[3]>> : ed \in es}
      both == new \cup (IF st.dir THEN {} ELSE {<<t[2], t[1], t[3]>> : t \in new})
      add  == [p \in {<<t[1], t[2]>> : t \in both} |->
                 (CHOOSE t \in both : t[1] = p[1] /\ t[2] = p[2])[3]]
      kept == Del(st.e, old)
  IN  [st EXCEPT !.el[1] = @ \cup {a[1] : a \in nds},
                 !.nl = IF st.full THEN @ ELSE {a \in @ : Tail(a) # l} \cup nds,
                 !.e = [p \in DOMAIN kept \cup DOMAIN add |->
                          IF p \in DOMAIN add THEN add[p] ELSE kept[p]]]

\* is the operation one the interface accepts in this state?
Enabled(st, op) ==
  CASE op.k = "node"   -> TRUE
    [] op.k = "nodeat" -> TRUE
    [] op.k = "layer"  -> op.x \in 0..st.asp
    [] op.k = "set"    -> Writable(st, op.a, op.b)
    [] op.k = "iset"   -> st.kind = "mx" /\ op.l \in LayerTuples(st.el) /\ op.a # op.b
    [] op.k = "inode"  -> st.kind = "mx" /\ op.l \in LayerTuples(st.el)
    [] op.k = "aset"   -> st.kind = "mx" /\ op.l \in LayerTuples(st.el)

\* A write of a coupling edge or of a self-edge of a multiplex network is rejected.
Rejected(st, op) ==
  /\ op.k = "set" /\ st.kind = "mx" /\ ~Writable(st, op.a, op.b)
  /\ op.a \in NodeLayers(st) /\ op.b \in NodeLayers(st)

Apply(st, op) ==
  IF ~Enabled(st, op) THEN st
  ELSE CASE op.k = "node"   -> AddNode(st, op.n)
         [] op.k = "nodeat" -> AddNodeAt(st, op.n, op.l)
         [] op.k = "layer"  -> AddLayer(st, op.n, op.x)
         [] op.k = "set"    -> SetEdge(st, op.a, op.b, op.w)
         [] op.k = "iset"   -> SetEdge(st, <<op.a>> \o op.l, <<op.b>> \o op.l, op.w)
         [] op.k = "inode"  -> AddNodeAt(st, op.n, op.l)
         [] op.k = "aset"   -> AssignLayer(st, op.l, Range(op.ns), Range(op.es))

New(cfg) == NewNet(cfg.kind, cfg.asp, cfg.dir, cfg.full, cfg.noedge, cfg.coup)

RECURSIVE Run(_, _, _)
Run(st, ops, i) == IF i > Len(ops) THEN st ELSE Run(Apply(st, ops[i]), ops, i + 1)
Build(cfg, ops) == Run(New(cfg), ops, 1)

(***************************************************************************)
(* Invariants of every reachable state                                     *)
(***************************************************************************)
TypeOK(st) ==
  /\ \A p \in DOMAIN st.e : p[1] \in NodeLayers(st) /\ p[2] \in NodeLayers(st)
  /\ \A p \in DOMAIN st.e : st.e[p] # st.noedge
  /\ \A a \in st.nl : \A k \in DOMAIN a : a[k] \in st.el[k]
  /\ st.kind = "mx" => \A p \in DOMAIN st.e : Tail(p[1]) = Tail(p[2]) /\ p[1] # p[2]
Symmetric(st) ==
  ~st.dir => \A a, b \in NodeLayers(st) : Link(st, a, b) = Link(st, b, a)
\* handshake: degrees and strengths add up to the edges
Handshake(st) ==
  LET N == NodeLayers(st)
      nd == NoDims(st)
      selfs == Cardinality({a \in N : HasEdge(st, a, a)})
  IN  IF st.dir
      THEN /\ SumPairs({<<a, DegView(st, a, "out", nd)>> : a \in N}) = NumEdges(st)
           /\ SumPairs({<<a, DegView(st, a, "in", nd)>> : a \in N}) = NumEdges(st)
           /\ SumPairs({<<a, StrOut(st, a, nd)>> : a \in N}) = SumPairs({<<a, StrIn(st, a, nd)>> : a \in N})
      ELSE SumPairs({<<a, DegView(st, a, "tot", nd)>> : a \in N}) + selfs = 2 * NumEdges(st)
Neighbourhoods(st) ==
  \A a \in NodeLayers(st) : \A mode \in {"out", "in", "tot"} :
     /\ Nb(st, a, mode) \subseteq NodeLayers(st)
     /\ (~st.dir => Nb(st, a, mode) = NbOut(st, a))
     /\ \A b \in NodeLayers(st) : b \in NbOut(st, a) <=> a \in NbIn(st, b)
StateInv(st) == TypeOK(st) /\ Symmetric(st) /\ Handshake(st) /\ Neighbourhoods(st)
=============================================================================
