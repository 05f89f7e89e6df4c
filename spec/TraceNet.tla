------------------------------ MODULE TraceNet ------------------------------
(***************************************************************************)
(* Trace specification: executions of the real library, recorded as one    *)
(* JSON line per execution, are checked against the actions of MLNet.      *)
(* Every line is one behaviour  [id, cfg, steps: [op, ok, obs]*] .  The    *)
(* abstract state is computed by MLNet!Apply; each obs (what the public    *)
(* interface reported after the call) is compared with the queries of      *)
(* MLBase.  Verdicts are total: every failing clause is printed with its   *)
(* witness, and the run continues.                                         *)
(***************************************************************************)
EXTENDS MLNet, Json, IOUtils, SequencesExt

Cases == ndJsonDeserialize(IOEnv.TRACE_FILE)

VARIABLES c, l, net
vars == <<c, l, net>>

NoDup(s) == Cardinality(Range(s)) = Len(s)
SameBag(s, S) == NoDup(s) /\ Range(s) = S
F(clause, wit) == [clause |-> clause, witness |-> ToString(wit)]
\* failing items of a list of observations
Check(clause, s, Ok(_)) ==
  LET bad == {i \in DOMAIN s : ~Ok(s[i])}
  IN  IF bad = {} THEN {} ELSE {F(clause, s[CHOOSE i \in bad : \A j \in bad : i <= j])}
Is(clause, ok, wit) == IF ok THEN {} ELSE {F(clause, wit)}

\* the numbers of indices that name a node-layer (reads only) or an edge
Wellformed(st, n, write) == n \in {st.asp + 2, 2 * (st.asp + 1)} \/ (~write /\ n = st.asp + 1)

(* --- the observation clauses -------------------------------------------- *)
\* rd: <<a, b, notation, weight>>
BadReads(st, o) == Check("read", o, LAMBDA x : Link(st, x[1], x[2]) = x[4])

\* elements: el, iter (nodes by iteration), len, nl, nodesin, layers
BadElems(st, o) ==
  LET nls == NodeLayers(st) IN
  UNION {
    Is("aspect-count", Len(o.el) = st.asp + 1, o.el),
    UNION {Is("elements", SameBag(o.el[k], st.el[k]), <<k, o.el[k], st.el[k]>>) : k \in DOMAIN st.el},
    Is("len", o.len = Cardinality(st.el[1]), o.len),
    Is("iteration", SameBag(o.iter, st.el[1]), o.iter),
    Is("iter_nodes", SameBag(o.nodes, st.el[1]), o.nodes),
    Is("node-layers", SameBag(o.nl, nls), <<o.nl, nls>>),
    Check("nodes-in-layer", o.nodesin, LAMBDA x : SameBag(x[2], NodesIn(st, x[1]))),
    Is("layers", st.asp = 0 \/ SameBag(o.layers, LayerTuples(st.el)), o.layers),
    Check("elementary-layers", o.elayers, LAMBDA x : SameBag(x[2], st.el[x[1] + 1]))
  }

\* dg: <<a, dims, mode, degree, strength, neighbours>>
BadDeg(st, o) ==
  UNION {
    Check("degree", o, LAMBDA x : DegView(st, x[1], x[3], x[2]) = x[4]),
    Check("strength", o, LAMBDA x : StrView(st, x[1], x[3], x[2]) = x[5]),
    Check("neighbours", o, LAMBDA x : SameBag(x[6], NbView(st, x[1], x[3], x[2])))
  }

\* edges: [list: <<a,b,w>>*, len]
EdgeKey(st, x) == IF st.dir THEN <<<<x[1], x[2]>>, x[3]>> ELSE <<{x[1], x[2]}, x[3]>>
BadEdges(st, o) ==
  LET got == [i \in DOMAIN o.list |-> EdgeKey(st, o.list[i])]
      exp == EdgeValues(st)
  IN  UNION {
        Check("edge-listed-not-there", got, LAMBDA x : x \in exp),
        Is("edge-missing", exp \subseteq Range(got), exp \ Range(got)),
        Is("edge-listed-twice", NoDup(got), got),
        Is("edge-count", o.len = Cardinality(exp), <<o.len, Cardinality(exp)>>)
      }

\* intra: intra-layer networks of a multiplex network: <<layer, nodes, reads, deg, edges>>
BadIntra(st, o) ==
  UNION {
    Is("intra-layer-keys", SameBag(o.keys, LayerTuples(st.el)), o.keys),
    Check("intra-nodes", o.nets, LAMBDA x : SameBag(x.nodes, NodesIn(st, x.l))),
    Check("intra-read", o.nets, LAMBDA x : \A i \in DOMAIN x.rd :
            Stored(st, <<x.rd[i][1]>> \o x.l, <<x.rd[i][2]>> \o x.l) = x.rd[i][3]),
    Check("intra-degree", o.nets, LAMBDA x : \A i \in DOMAIN x.deg :
            LET a == <<x.deg[i][1]>> \o x.l
                dims == <<ANY>> \o x.l
            IN /\ x.deg[i][2] = DegView(st, a, "tot", dims)
               /\ x.deg[i][3] = DegView(st, a, "out", dims)
               /\ x.deg[i][4] = DegView(st, a, "in", dims)),
    Check("intra-edge-count", o.nets, LAMBDA x :
            x.nedges = Cardinality({ev \in EdgeValues([st EXCEPT !.kind = "ml"]) :
                         \A a \in Range(IF st.dir THEN ev[1] ELSE <<CHOOSE q \in ev[1] : TRUE>>) : Tail(a) = x.l}))
  }

Bad(st, s) ==
  UNION {
    Is("unexpected-exception", s.ok \/ (Rejected(st, s.op) /\ s.qfail = 0), s.exc),
    Is("write-not-rejected", ~s.ok \/ ~Rejected(st, s.op), s.op),
    IF "rd" \in DOMAIN s.obs THEN BadReads(st, s.obs.rd) ELSE {},
    \* arity: <<number of indices, written?, refused?, elements and edges before, after>>
    IF "arity" \in DOMAIN s.obs
    THEN Check("malformed-index", s.obs.arity, LAMBDA x : Wellformed(st, x[1], x[2] = 1) \/ (x[3] = 1 /\ x[4] = x[5])) ELSE {},
    IF "elems" \in DOMAIN s.obs THEN BadElems(st, s.obs.elems) ELSE {},
    IF "dg" \in DOMAIN s.obs THEN BadDeg(st, s.obs.dg) ELSE {},
    IF "edges" \in DOMAIN s.obs THEN BadEdges(st, s.obs.edges) ELSE {},
    IF "intra" \in DOMAIN s.obs THEN BadIntra(st, s.obs.intra) ELSE {}
  }

(* --- the behaviour -------------------------------------------------------- *)
Init == c \in 1..Len(Cases) /\ l = 0 /\ net = New(Cases[c].cfg)
Next ==
  /\ l < Len(Cases[c].steps)
  /\ l' = l + 1 /\ c' = c
  /\ LET s  == Cases[c].steps[l+1]
         st == Apply(net, s.op)
         bad == Bad(st, s)
     IN  /\ net' = st
         /\ IF bad = {} THEN TRUE
            ELSE PrintT("FAIL " \o ToJson([id |-> Cases[c].id, step |-> l+1, bad |-> bad]))
Spec == Init /\ [][Next]_vars

Total == FoldLeft(LAMBDA acc, x : acc + 1 + Len(x.steps), 0, Cases)
Accepted == PrintT("DONE " \o ToString(TLCGet("stats").distinct) \o " " \o ToString(Total))
            /\ TLCGet("stats").distinct = Total
=============================================================================
