------------------------------- MODULE MLBase -------------------------------
(***************************************************************************)
(* The abstract state of a pymnet network and the queries on it.           *)
(*                                                                         *)
(* Atoms (nodes and elementary layers) are non-negative integers; the      *)
(* conformance harness maps them to Python labels of several kinds.  A     *)
(* node-layer is a tuple <<node, layer_1, ..., layer_asp>>.                *)
(*                                                                         *)
(* A network state is a record                                             *)
(*   kind   "ml" (MultilayerNetwork) or "mx" (MultiplexNetwork)            *)
(*   asp    number of aspects                                              *)
(*   dir    directed?                                                      *)
(*   full   fully interconnected (node-aligned)?                           *)
(*   noedge the marker value meaning "no edge"                             *)
(*   coup   multiplex: one coupling rule per aspect                        *)
(*   el     <<nodes, layers of aspect 1, ..., layers of aspect asp>>       *)
(*   nl     set of node-layers that exist (only when ~full)                *)
(*   e      function from ordered pairs <<a,b>> of node-layers to weights; *)
(*          only stored edges (for "mx": intra-layer edges); symmetric     *)
(*          when ~dir                                                      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, TLC


\* the sum of the second components of a set of pairs
SumPairs(S) == MapThenSumSet(LAMBDA x : x[2], S)

RECURSIVE SumSeq(_)
SumSeq(s) == IF s = <<>> THEN 0 ELSE Head(s) + SumSeq(Tail(s))

Abs(x) == IF x < 0 THEN -x ELSE x
Max2(x, y) == IF x > y THEN x ELSE y
Min2(x, y) == IF x < y THEN x ELSE y

EmptyFn == [x \in {} |-> 0]

\* an outcome of probability a/b was seen count times in n independent draws: certain outcomes
\* always, impossible ones never, others within six standard deviations
Frequent(count, n, a, b) ==
  IF a = 0 THEN count = 0 ELSE IF a = b THEN count = n
  ELSE LET m == (n * a) \div b
           v == (m * (b - a)) \div b + 1
           d == Abs(count - m)
       IN  d <= 1 \/ (d - 1) * (d - 1) <= 36 * v

(***************************************************************************)
(* Construction                                                            *)
(***************************************************************************)
NewNet(kind, asp, dir, full, noedge, coup) ==
  [kind |-> kind, asp |-> asp, dir |-> dir, full |-> (full \/ asp = 0), noedge |-> noedge,
   coup |-> coup, el |-> [k \in 1..(asp+1) |-> {}], nl |-> {}, e |-> EmptyFn]

Product(el) ==
  CASE Len(el) = 1 -> {<<a>> : a \in el[1]}
    [] Len(el) = 2 -> {<<a, b>> : a \in el[1], b \in el[2]}
    [] Len(el) = 3 -> {<<a, b, c>> : a \in el[1], b \in el[2], c \in el[3]}
    [] Len(el) = 4 -> {<<a, b, c, d>> : a \in el[1], b \in el[2], c \in el[3], d \in el[4]}

\* every combination of one elementary layer per aspect
LayerTuples(el) ==
  CASE Len(el) = 1 -> {<<>>}
    [] Len(el) = 2 -> {<<b>> : b \in el[2]}
    [] Len(el) = 3 -> {<<b, c>> : b \in el[2], c \in el[3]}
    [] Len(el) = 4 -> {<<b, c, d>> : b \in el[2], c \in el[3], d \in el[4]}

NodeLayers(st) == IF st.full THEN Product(st.el) ELSE st.nl
LayerOf(a) == Tail(a)
NodesIn(st, layer) == IF st.full THEN st.el[1] ELSE {a[1] : a \in {x \in st.nl : Tail(x) = layer}}

\* the aspects (1 = nodes, k+1 = aspect k) in which a and b differ
DiffAt(a, b) == {k \in DOMAIN a : a[k] # b[k]}

Set1(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Del(f, K) == [x \in DOMAIN f \ K |-> f[x]]

RegElems(el, a) == [k \in DOMAIN el |-> el[k] \cup {a[k]}]

(***************************************************************************)
(* Actions, as functions from state to state                               *)
(***************************************************************************)
AddNode(st, n) == [st EXCEPT !.el[1] = @ \cup {n}]

\* add_node(n, layer=...): the layer is ignored by node-aligned networks
AddNodeAt(st, n, layer) ==
  IF st.full THEN AddNode(st, n)
  ELSE [st EXCEPT !.el = RegElems(@, <<n>> \o layer), !.nl = @ \cup {<<n>> \o layer}]

AddLayer(st, l, aspect) ==
  IF aspect = 0 THEN AddNode(st, l) ELSE [st EXCEPT !.el[aspect+1] = @ \cup {l}]

Register(st, a) ==
  [st EXCEPT !.el = RegElems(@, a), !.nl = IF st.full THEN @ ELSE @ \cup {a}]

PutEdge(st, a, b, w) ==
  LET keys == IF st.dir THEN {<<a, b>>} ELSE {<<a, b>>, <<b, a>>}
  IN  [st EXCEPT !.e = IF w = st.noedge THEN Del(@, keys)
                       ELSE [x \in DOMAIN @ \cup keys |-> IF x \in keys THEN w ELSE @[x]]]

\* the writes a network accepts; a multiplex network stores only intra-layer
\* edges, its inter-layer edges being given by the coupling rules
Writable(st, a, b) == st.kind = "ml" \/ (Tail(a) = Tail(b) /\ a # b)

\* Assigning any weight (the no-edge marker included) registers both ends.
SetEdge(st, a, b, w) == PutEdge(Register(Register(st, a), b), a, b, w)

(***************************************************************************)
(* Queries                                                                 *)
(***************************************************************************)
Stored(st, a, b) == IF <<a, b>> \in DOMAIN st.e THEN st.e[<<a, b>>] ELSE st.noedge

CoupEdge(c, s, r) ==
  LET hit == {i \in DOMAIN c.e : c.e[i][1] = s /\ c.e[i][2] = r}
  IN  IF hit = {} THEN 0 ELSE c.e[CHOOSE i \in hit : TRUE][3]

\* Weight of the coupling edge between a and b, which differ exactly in tuple position k
Coupling(st, a, b, k) ==
  LET c == st.coup[k-1]
  IN  CASE c.t = "categorical" -> c.w
        [] c.t = "ordinal"     -> IF Abs(a[k] - b[k]) = 1 THEN c.w ELSE st.noedge
        [] c.t = "network"     -> LET w == CoupEdge(c, a[k], b[k])
                                  IN  IF w = 0 THEN st.noedge ELSE w
        [] c.t = "none"        -> st.noedge

Link(st, a, b) ==
  IF st.kind = "ml" THEN Stored(st, a, b)
  ELSE LET D == DiffAt(a, b)
       IN  IF Cardinality(D) # 1 THEN st.noedge
           ELSE LET k == CHOOSE x \in D : TRUE
                IN  IF k = 1 THEN Stored(st, a, b)
                    ELSE IF a \in NodeLayers(st) /\ b \in NodeLayers(st)
                         THEN Coupling(st, a, b, k) ELSE st.noedge

HasEdge(st, a, b) == Link(st, a, b) # st.noedge

NbOut(st, a) ==
  IF st.kind = "ml"
  THEN {p[2] : p \in {q \in DOMAIN st.e : q[1] = a}}
  ELSE {b \in NodeLayers(st) : HasEdge(st, a, b)}
NbIn(st, a) ==
  IF st.kind = "ml"
  THEN {p[1] : p \in {q \in DOMAIN st.e : q[2] = a}}
  ELSE {b \in NodeLayers(st) : HasEdge(st, b, a)}
NbTotal(st, a) == NbOut(st, a) \cup NbIn(st, a)

Nb(st, a, mode) ==
  CASE mode = "out" -> NbOut(st, a)
    [] mode = "in"  -> NbIn(st, a)
    [] mode = "tot" -> NbTotal(st, a)

ANY == -1      \* unrestricted position of a sliced view
Visible(b, dims) == \A k \in DOMAIN dims : dims[k] = ANY \/ dims[k] = b[k]
NbView(st, a, mode, dims) == {b \in Nb(st, a, mode) : Visible(b, dims)}

DegView(st, a, mode, dims) == Cardinality(NbView(st, a, mode, dims))

StrOut(st, a, dims) == SumPairs({<<b, Link(st, a, b)>> : b \in NbView(st, a, "out", dims)})
StrIn(st, a, dims)  == SumPairs({<<b, Link(st, b, a)>> : b \in NbView(st, a, "in", dims)})
StrView(st, a, mode, dims) ==
  CASE mode = "out" -> StrOut(st, a, dims)
    [] mode = "in"  -> StrIn(st, a, dims)
    [] mode = "tot" -> IF st.dir THEN StrIn(st, a, dims) + StrOut(st, a, dims)
                       ELSE StrOut(st, a, dims)
NoDims(st) == [k \in 1..(st.asp+1) |-> ANY]

\* all edges as ordered pairs
EdgePairs(st) ==
  IF st.kind = "ml" THEN DOMAIN st.e
  ELSE {p \in NodeLayers(st) \X NodeLayers(st) : HasEdge(st, p[1], p[2])}

\* edges as values: <<pair, weight>>, undirected edges as {a,b}
EdgeValues(st) ==
  IF st.dir THEN {<<p, Link(st, p[1], p[2])>> : p \in EdgePairs(st)}
  ELSE {<<{p[1], p[2]}, Link(st, p[1], p[2])>> : p \in EdgePairs(st)}
NumEdges(st) == Cardinality(EdgeValues(st))

\* the same network as a plain multilayer state with every edge explicit
Explicit(st) ==
  [st EXCEPT !.e = [p \in EdgePairs(st) |-> Link(st, p[1], p[2])]]

(***************************************************************************)
(* Equality of networks                                                    *)
(***************************************************************************)
CoupKey(c) == [t |-> c.t, w |-> IF c.t \in {"categorical", "ordinal"} THEN c.w ELSE 0,
               e |-> IF c.t = "network" THEN Range(c.e) ELSE {}]
SameConfig(s, t) ==
  /\ s.kind = t.kind /\ s.asp = t.asp /\ s.dir = t.dir /\ s.full = t.full /\ s.noedge = t.noedge
  /\ (s.kind = "mx" => [k \in DOMAIN s.coup |-> CoupKey(s.coup[k])] = [k \in DOMAIN t.coup |-> CoupKey(t.coup[k])])
SameStructure(s, t) ==
  SameConfig(s, t) /\ s.el = t.el /\ NodeLayers(s) = NodeLayers(t) /\ s.e = t.e

(***************************************************************************)
(* Decoding of networks described in JSON ("jn" records)                   *)
(***************************************************************************)
CoupOf(j) == IF "coup" \in DOMAIN j THEN j.coup ELSE <<>>
FromJson(j) ==
  LET el0 == [k \in 1..(j.asp+1) |-> Range(j.el[k])]
      prs == Range(j.e)
      one == [p \in {<<x[1], x[2]>> : x \in prs} |-> (CHOOSE x \in prs : x[1] = p[1] /\ x[2] = p[2])[3]]
      two == IF j.dir THEN one
             ELSE [p \in DOMAIN one \cup {<<q[2], q[1]>> : q \in DOMAIN one} |->
                     IF p \in DOMAIN one THEN one[p] ELSE one[<<p[2], p[1]>>]]
  IN  [kind |-> j.kind, asp |-> j.asp, dir |-> j.dir, full |-> (j.full \/ j.asp = 0), noedge |-> j.noedge,
       coup |-> CoupOf(j), el |-> el0,
       nl |-> IF j.full \/ j.asp = 0 THEN {} ELSE Range(j.nl), e |-> two]
=============================================================================
