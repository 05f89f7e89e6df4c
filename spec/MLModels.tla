------------------------------- MODULE MLModels -------------------------------
(***************************************************************************)
(* Random and deterministic network models.  A model is described by the   *)
(* set of networks it may produce: the exact skeleton (class, nodes,       *)
(* layers, node-layers, couplings) and a predicate on the edges.           *)
(***************************************************************************)
EXTENDS MLBase, SequencesExt

\* the network with the given skeleton and the intra-layer / stored edges
\* observed; everything else about it must follow from these
Skeleton(kind, full, coup, el, nl, dir) ==
  [NewNet(kind, Len(el) - 1, dir, full, 0, coup) EXCEPT !.el = el, !.nl = IF full \/ Len(el) = 1 THEN {} ELSE nl]
WithEdges(st, prs) ==
  LET keep == {x \in prs : st.kind = "ml" \/ (Tail(x[1]) = Tail(x[2]) /\ x[1] # x[2])}
  IN  [st EXCEPT !.e = [q \in {<<x[1], x[2]>> : x \in keep} |->
                          (CHOOSE x \in keep : x[1] = q[1] /\ x[2] = q[2])[3]]]

\* the undirected edges {i,j} of one layer
LayerLinks(st, l) == {{q[1][1], q[2][1]} : q \in {p \in DOMAIN st.e : Tail(p[1]) = l /\ Tail(p[2]) = l}}
NodePairs(S) == {s \in {{i, j} : i \in S, j \in S} : Cardinality(s) = 2}
Simple(st) == \A q \in DOMAIN st.e : st.e[q] = 1 /\ q[1] # q[2]
DegIn(E, i) == Cardinality({s \in E : i \in s})

(* ---- Erdos-Renyi: mode "edges" (m of them), "p" with p = 0, 1 or between -- *)
ERLayer(E, N, mode, m) ==
  /\ E \subseteq NodePairs(N)
  /\ mode = "edges" => Cardinality(E) = m
  /\ mode = "p0" => E = {}
  /\ mode = "p1" => E = NodePairs(N)

(* ---- configuration model: the degrees are the given ones ---------------- *)
DegreesAre(E, d) == \A i \in DOMAIN d : DegIn(E, i) = d[i]
DistributionIs(E, N, D) ==
  \A k \in DOMAIN D \cup {DegIn(E, i) : i \in N} :
    Cardinality({i \in N : DegIn(E, i) = k}) = IF k \in DOMAIN D THEN D[k] ELSE 0

(* ---- overlapping layers ---- *)
ExactlyIn(st, S) ==   \* the links that are in exactly the layers of S
  {p \in NodePairs(st.el[1]) : {l \in st.el[2] : p \in LayerLinks(st, <<l>>)} = S}

RECURSIVE Pow(_, _)
Pow(x, k) == IF k = 0 THEN 1 ELSE x * Pow(x, k - 1)
=============================================================================
