-------------------------------- MODULE MLNx ---------------------------------
(***************************************************************************)
(* The NetworkX view of an undirected monoplex network.  The view and the  *)
(* network are two interfaces to one state; the view's actions:            *)
(*   vnode   n        add_node                                             *)
(*   vedge   a b w    add_edge with a weight                               *)
(*   vplain  a b      add_edge without a weight: keeps the weight of an    *)
(*                    existing edge, a new edge gets weight 1              *)
(*   vdel    a b      remove_edge; refused (no effect) if there is none    *)
(*   vclear           clear_edges                                          *)
(*   vweight a b w    view[a][b]["weight"] = w for an existing edge        *)
(* and the network's own: node n, edge a b w (the no-edge value removes).  *)
(***************************************************************************)
EXTENDS MLNet, SequencesExt

Has(st, a, b) == <<<<a>>, <<b>>>> \in DOMAIN st.e
Wt(st, a, b) == st.e[<<<<a>>, <<b>>>>]
NxRefused(st, op) == op.k \in {"vdel", "vweight"} /\ ~Has(st, op.a, op.b)
NxApply(st, op) ==
  CASE op.k \in {"vnode", "node"} -> AddNode(st, op.a)
    [] op.k \in {"vedge", "edge"} -> SetEdge(st, <<op.a>>, <<op.b>>, op.w)
    [] op.k = "vplain" -> IF Has(st, op.a, op.b) THEN st ELSE SetEdge(st, <<op.a>>, <<op.b>>, 1)
    [] op.k = "vdel" -> IF Has(st, op.a, op.b) THEN SetEdge(st, <<op.a>>, <<op.b>>, st.noedge) ELSE st
    [] op.k = "vweight" -> IF Has(st, op.a, op.b) THEN SetEdge(st, <<op.a>>, <<op.b>>, op.w) ELSE st
    [] op.k = "vclear" -> [st EXCEPT !.e = EmptyFn]
RECURSIVE NxRun(_, _, _)
NxRun(st, ops, i) == IF i = 0 THEN st ELSE NxApply(NxRun(st, ops, i - 1), ops[i])

(* ----------------------------------------------------- graph algorithms *)
Nodes(st) == st.el[1]
NbN(st, a) == {b \in Nodes(st) : Has(st, a, b)}
RECURSIVE Grow(_, _)
Grow(st, S) == LET T == S \cup UNION {NbN(st, a) : a \in S} IN IF T = S THEN S ELSE Grow(st, T)
Components(st) == {Grow(st, {a}) : a \in Nodes(st)}
UEdges(st) == {{q[1][1], q[2][1]} : q \in DOMAIN st.e}
WtOf(st, s) == LET a == CHOOSE x \in s : TRUE IN IF Cardinality(s) = 1 THEN Wt(st, a, a) ELSE Wt(st, a, CHOOSE x \in s : x # a)
\* adjacency as a set of <<a, b, w>> (both orientations)
Adj(st) == {<<q[1][1], q[2][1], st.e[q]>> : q \in DOMAIN st.e}
AdjAmong(st, S) == {t \in Adj(st) : t[1] \in S /\ t[2] \in S}
FARN == 100000
RelaxN(st, d) == [a \in DOMAIN d |-> Min({d[a]} \cup {d[b] + Wt(st, b, a) : b \in {x \in NbN(st, a) : d[x] < FARN}})]
RECURSIVE FixN(_, _)
FixN(st, d) == LET n == RelaxN(st, d) IN IF n = d THEN d ELSE FixN(st, n)
DistN(st, s) == FixN(st, [a \in Nodes(st) |-> IF a = s THEN 0 ELSE FARN])
\* weight of a minimum spanning forest (Kruskal over subsets is too slow: cut property, greedily)
RECURSIVE Greedy(_, _, _, _, _)
Greedy(st, edges, parts, acc, sign) ==
  LET live == {s \in edges : \A P \in parts : ~(s \subseteq P)}
  IN  IF live = {} THEN acc
      ELSE LET s == CHOOSE s \in live : \A t \in live : sign * WtOf(st, s) <= sign * WtOf(st, t)
               hit == {P \in parts : s \cap P # {}}
           IN  Greedy(st, live \ {s}, (parts \ hit) \cup {UNION hit}, acc + WtOf(st, s), sign)
MstWeight(st) == Greedy(st, UEdges(st), {{a} : a \in Nodes(st)}, 0, 1)
MaxstWeight(st) == Greedy(st, UEdges(st), {{a} : a \in Nodes(st)}, 0, -1)
\* the largest set of nodes in S with at least k neighbors in the set
RECURSIVE KCore(_, _, _)
KCore(st, k, S) == LET T == {a \in S : Cardinality(NbN(st, a) \cap S) >= k} IN IF T = S THEN S ELSE KCore(st, k, T)
CoreNumber(st, a) == Max({k \in 0..Cardinality(Nodes(st)) : a \in KCore(st, k, Nodes(st))})
Triangles(st, a) == Cardinality({p \in NbN(st, a) \X NbN(st, a) : p[1] # p[2] /\ Has(st, p[1], p[2])}) \div 2
=============================================================================
