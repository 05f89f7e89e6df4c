---------------------------- MODULE TraceLayout ------------------------------
(***************************************************************************)
(* Recorded layouts.  Coordinates are in thousandths, exact ones (flags)   *)
(* are decided by the recorder.                                            *)
(***************************************************************************)
EXTENDS TraceBase, MLLayout

LayInput(x) == BadNet("input", NetOf(x.net), x.obs.after)

\* result: sequence of <<key, x, y>>
AsMap(s) == [a \in {y[1] : y \in Range(s)} |-> (LET y == CHOOSE y \in Range(s) : y[1] = a IN <<y[2], y[3]>>)]
Near(a, b, t) == a - b <= t /\ b - a <= t

BadForce(x) ==
  LET st == NetOf(x.net) o == x.obs
      K == Keys(st, x.al)
      fixd == {a \in K : <<a[1]>> \in Range(x.fixn) \/ (~x.al /\ a \in Range(x.fixnl))}
      free == K \ fixd
      box == x.box
      got == AsMap(o.res)
  IN UNION {
      Is("layout-keys", NoDup(o.res) /\ Len(o.res) = Cardinality(K) /\ DOMAIN got = K, o.res),
      Is("finite", o.finite, o.res),
      IF DOMAIN got # K \/ ~o.finite THEN {} ELSE UNION {
        Is("fixed-moved", o.fixed /\ \A a \in fixd : \A y \in Range(x.init) : y[1] = a => got[a] = <<y[2], y[3]>>, <<o.res, x.init>>),
        Is("outside-box", \A a \in free : \A k \in 1..2 : got[a][k] >= 0 /\ got[a][k] <= box[k], <<o.res, box>>),
        Is("box-not-filled", (fixd # {} \/ Cardinality(K) < 2) \/
              \A k \in 1..2 : LET S == {got[a][k] : a \in K} IN  {0, box[k]} \subseteq S \/ S = {box[k] \div 2}, <<o.res, box>>),
        \* the same steps for a copy of the network with other names
        Is("names-matter", \A y \in Range(o.other) : y[1] \in K /\ Near(y[2], got[y[1]][1], 3) /\ Near(y[3], got[y[1]][2], 3), <<o.res, o.other>>),
        IF x.iters # 1 \/ Len(x.init) # Cardinality(K) THEN {}
        ELSE IF ~Small(st, x.al, AsMap(x.init), x.nd, fixd) THEN {}
        ELSE LET c0 == AsMap(x.init)
                 m == TLCEval(Moved(st, x.al, c0, x.nd, box, fixd))
                 r == TLCEval(<<Range1(m, 1), Range1(m, 2)>>)
                 b == TLCEval(Boxed(m, box, fixd))
                 tol(k) == 12 + (box[k] \div 50) + ((40 * (box[k] \div 10)) \div (1 + r[k][2] - r[k][1])) * 10
             IN  Is("forces", \A a \in free : \A k \in 1..2 : r[k][2] - r[k][1] < 300 \/ Near(got[a][k], b[a][k], tol(k)), <<o.res, [a \in K |-> b[a]]>>)},
      LayInput(x)}

\* get_layout: coordinates of nodes, or of node-layers
BadGet(x) ==
  LET st == NetOf(x.net) o == x.obs
      al == IF x.al = "auto" THEN st.kind = "mx" ELSE x.al = "yes"
      N == {<<v>> : v \in st.el[1]}
  IN UNION {
      Is("get-nodes", IF al THEN NoDup(o.n) /\ {y[1] : y \in Range(o.n)} = N /\ Len(o.n) = Cardinality(N) ELSE o.n = <<>>, o.n),
      Is("get-node-layers", IF ~al THEN {y[1] : y \in Range(o.nl)} = NodeLayers(st) /\ Len(o.nl) = Cardinality(NodeLayers(st)) ELSE o.nl = <<>>, o.nl),
      Is("finite", o.finite, o),
      IF x.layout \notin {"random", "fr"} THEN {}
      ELSE Is("get-box", \A y \in Range(o.n) \cup Range(o.nl) : y[2] \in 0..U /\ y[3] \in 0..U, o),
      IF x.layout # "circular" \/ ~al \/ Len(o.n) < 2 THEN {}
      ELSE Is("circle", \A y \in Range(o.n) : Near((y[2] * y[2]) + (y[3] * y[3]), U * U, 5000)
                          /\ \A z \in Range(o.n) : y[1] # z[1] => Dist2(<<y[2], y[3]>>, <<z[2], z[3]>>) > 10000, o.n),
      IF x.layout \notin {"random", "spring"} \/ Len(o.n) + Len(o.nl) > 9 THEN {}
      ELSE Is("places-equal", \A y, z \in Range(o.n) \cup Range(o.nl) : y[1] # z[1] => <<y[2], y[3]>> # <<z[2], z[3]>>, o),
      LayInput(x)}

\* figures drawn with a layout
BadDrawn(x) ==
  LET st == NetOf(x.net) o == x.obs
      al == IF x.al = "auto" THEN st.kind = "mx" ELSE x.al = "yes"
      NL == NodeLayers(st)
      places == {<<y.p[1], y.p[2]>> : y \in Range(o.nodes)}
  IN UNION {
      Is("drawn-layers", Len(o.layers) = Cardinality(LayerTuples(st.el)), o.layers),
      Is("drawn-nodes", Len(o.nodes) = Cardinality(NL), o.nodes),
      Is("drawn-inside", \A y \in Range(o.nodes) : y.p[1] \in 0..U /\ y.p[2] \in 0..U, o.nodes),
      Is("drawn-texts", \A v \in st.el[1] : Cardinality({i \in DOMAIN o.texts : o.texts[i] = v}) = Cardinality({a \in NL : a[1] = v}), o.texts),
      Is("aligned", ~al \/ \A v \in Range(o.texts) : Cardinality({<<o.nodes[i].p[1], o.nodes[i].p[2]>> : i \in {j \in DOMAIN o.texts : o.texts[j] = v}}) = 1, <<o.texts, o.nodes>>),
      Is("ends", \A g \in Range(o.lines) : g.p \in {y.p : y \in Range(o.nodes)} /\ g.q \in {y.p : y \in Range(o.nodes)}, o.lines),
      Is("drawn-edges", (Len(o.lines) = 0) = (EdgePairs(st) = {}), o.lines),
      LayInput(x)}

BadLayout(x) == CASE x.fn = "force" -> BadForce(x) [] x.fn = "get" -> BadGet(x) [] OTHER -> BadDrawn(x)
=============================================================================
