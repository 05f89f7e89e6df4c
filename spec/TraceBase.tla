------------------------------ MODULE TraceBase ------------------------------
(***************************************************************************)
(* Skeleton of the trace specifications for calls whose result is a        *)
(* function of their arguments: one recorded call (with its abstract       *)
(* inputs and everything observed) per line, one transition per call.      *)
(* Bad(x) is the set of failing clauses of record x.                       *)
(***************************************************************************)
EXTENDS MLNet, Json, IOUtils, SequencesExt

CONSTANT Bad(_)

Cases == ndJsonDeserialize(IOEnv.TRACE_FILE)

VARIABLES c, done
vars == <<c, done>>

NoDup(s) == Cardinality(Range(s)) = Len(s)
SameBag(s, S) == NoDup(s) /\ Range(s) = S
F(clause, wit) == [clause |-> clause, witness |-> ToString(wit)]
Check(clause, s, Ok(_)) ==
  LET bad == {i \in DOMAIN s : ~Ok(s[i])}
  IN  IF bad = {} THEN {} ELSE {F(clause, s[CHOOSE i \in bad : \A j \in bad : i <= j])}
Is(clause, ok, wit) == IF ok THEN {} ELSE {F(clause, wit)}

\* a network described either by a history or statically
NetOf(x) == IF "ops" \in DOMAIN x THEN Build(x.cfg, x.ops) ELSE FromJson(x)

(* --- a projected result network against an expected abstract network ---- *)
\* p: ordered pairs of node-layers whose edge is not the no-edge value
BadNet(pre, st, o) ==
  LET nls == NodeLayers(st)
      got == {<<x[1], x[2], x[3]>> : x \in Range(o.p)}
      exp == {<<q[1], q[2], Link(st, q[1], q[2])>> : q \in EdgePairs(st)}
  IN UNION {
      Is(pre \o "-class", o.kind = st.kind, <<o.kind, st.kind>>),
      Is(pre \o "-aspects", o.asp = st.asp, <<o.asp, st.asp>>),
      Is(pre \o "-directed", o.dir = st.dir, o.dir),
      Is(pre \o "-interconnected", o.full = st.full, o.full),
      Is(pre \o "-noedge", o.noedge = st.noedge, o.noedge),
      IF o.asp # st.asp THEN {} ELSE UNION {
        UNION {Is(pre \o "-elements", SameBag(o.el[k], st.el[k]), <<k, o.el[k], st.el[k]>>) : k \in DOMAIN st.el},
        Is(pre \o "-node-layers", SameBag(o.nl, nls), <<o.nl, nls>>),
        Is(pre \o "-edge-extra", got \subseteq exp, got \ exp),
        Is(pre \o "-edge-missing", exp \subseteq got, exp \ got),
        Is(pre \o "-edge-count", o.ne = NumEdges(st), <<o.ne, NumEdges(st)>>),
        Check(pre \o "-degree", o.deg, LAMBDA x : x[2] = DegView(st, x[1], "tot", NoDims(st)))
      }
    }

Init == c \in 1..Len(Cases) /\ done = FALSE
Next ==
  /\ ~done /\ done' = TRUE /\ c' = c
  /\ LET x == Cases[c]
         bad == IF x.ok THEN Bad(x) ELSE {F("unexpected-exception", x.exc)}
     IN  IF bad = {} THEN TRUE
         ELSE PrintT("FAIL " \o ToJson([id |-> x.id, step |-> 0, bad |-> bad]))
Spec == Init /\ [][Next]_vars

Total == 2 * Len(Cases)
Accepted == PrintT("DONE " \o ToString(TLCGet("stats").distinct) \o " " \o ToString(Total))
            /\ TLCGet("stats").distinct = Total
=============================================================================
