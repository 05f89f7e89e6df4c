------------------------------ MODULE MLSampling ------------------------------
(***************************************************************************)
(* Induced subgraphs [nodes][layers] of networks with one aspect, and the  *)
(* requirements on them.  ANYSIZE (-1) is an intersection of any size.     *)
(***************************************************************************)
EXTENDS MLBase, SequencesExt

ANYSIZE == -1
Induced(st, N, L) == {a \in NodeLayers(st) : a[1] \in N /\ a[2] \in L}

RECURSIVE Reach(_, _)
\* everything reachable from R along the links E (a symmetric set of pairs)
Reach(R, E) ==
  LET N == R \cup {q[2] : q \in {x \in E : x[1] \in R}}
  IN  IF N = R THEN R ELSE Reach(N, E)
Symmetric(E) == E \cup {<<q[2], q[1]>> : q \in E}
ConnectedIn(nls, E) ==
  nls # {} /\ LET In == {q \in E : q[1] \in nls /\ q[2] \in nls}
                  s == CHOOSE a \in nls : TRUE
              IN  Reach({s}, Symmetric(In)) = nls
NoEmpty(nls, N, L) == {a[1] : a \in nls} = N /\ {a[2] : a \in nls} = L

\* connected, no empty node or layer (E: all the edges, evaluated once)
Relaxed(st, E, N, L) == LET nls == Induced(st, N, L) IN ConnectedIn(nls, E) /\ NoEmpty(nls, N, L)

(* sizes: one per layer role; inter: one entry per set of two or more roles, *)
(* given as a function from sets of roles                                    *)
Subsets2(n) == {S \in SUBSET (1..n) : Cardinality(S) >= 2}
RoleOK(nls, role, sizes, inter, type) ==
  LET on(l) == {a[1] : a \in {x \in nls : x[2] = l}}
      K == DOMAIN sizes
      common(S) == {n \in {a[1] : a \in nls} : \A k \in S : n \in on(role[k])}
  IN  /\ \A k \in K : Cardinality(on(role[k])) = sizes[k]
      /\ \A S \in DOMAIN inter :
           inter[S] = ANYSIZE \/ (IF type = "strict" THEN Cardinality(common(S)) = inter[S]
                                  ELSE Cardinality(common(S)) <= inter[S])
Roles(L) == {f \in [1..Cardinality(L) -> L] : \A i, j \in DOMAIN f : i # j => f[i] # f[j]}
Required(st, E, N, L, sizes, inter, type) ==
  /\ Relaxed(st, E, N, L)
  /\ Cardinality(L) = Len(sizes)
  /\ LET nls == Induced(st, N, L) IN \E role \in Roles(L) : RoleOK(nls, role, sizes, inter, type)

\* number of nodes of a subgraph with the given sizes and intersections
Sign(k) == IF k % 2 = 0 THEN -1 ELSE 1
RequiredNodes(sizes, inter) ==
  SumPairs({<<k, sizes[k]>> : k \in DOMAIN sizes}) + SumPairs({<<S, Sign(Cardinality(S)) * inter[S]>> : S \in DOMAIN inter})
=============================================================================
