----------------------------- MODULE TraceDraw -------------------------------
(***************************************************************************)
(* Recorded figures and web pages of networks with one aspect.             *)
(***************************************************************************)
EXTENDS TraceBase, MLDraw

FigInput(x) == BadNet("input", NetOf(x.net), x.obs.after)
StrOf(x, v) == LET m == {y \in Range(x.strs) : y[1] = v} IN IF m = {} THEN "?" ELSE (CHOOSE y \in m : TRUE)[2]
FitText(x, exp, got) == IF Wild(exp) THEN \E v \in exp[2] : StrOf(x, v) = got ELSE StrOf(x, exp) = got
\* fonts are at least of size one
Font(v) == IF v[2] < 60 THEN Num(60) ELSE v
FontSize(v) == IF v = NONE THEN Num(600) ELSE IF Wild(v) THEN <<"any", {Font(y) : y \in v[2]}>> ELSE Font(v)

\* positions of the node-layers (in 120ths): own, or those of the node
Pos(x, a, k) == LET own == {y \in Range(x.nlcoords) : y[1] = a}
                    nod == {y \in Range(x.ncoords) : y[1] = a[1]}
                IN  IF own # {} THEN (CHOOSE y \in own : TRUE)[1 + k] ELSE (CHOOSE y \in nod : TRUE)[1 + k]

BadFigureFor(x, st, ord) ==
  LET o == x.obs
      P == x.props
      L == LayerTuples(st.el)
      NL == TLCEval(NodeLayers(st))
      E == TLCEval(EdgePairs(st))
      lprops == {p \in DOMAIN P : x.fam[p] = "layer"}
      nprops == {p \in DOMAIN P : x.fam[p] = "node"}
      eprops == {p \in DOMAIN P : x.fam[p] = "edge"}
      LV == TLCEval([p \in lprops |-> TLCEval([l \in L |-> Val(st, "layer", P[p], l)])])
      NV == TLCEval([p \in nprops |-> TLCEval([a \in NL |-> Val(st, "node", P[p], a)])])
      EV == TLCEval([p \in eprops |-> TLCEval([e \in E |-> Val(st, "edge", P[p], e)])])
      lv(p, l) == LV[p][l]
      nv(p, a) == NV[p][a]
      ev(p, e) == EV[p][e]
      K == Len(ord)
      rank == [l \in L |-> K - (CHOOSE i \in 1..K : ord[i] = l)]
      z == TLCEval([l \in L |-> Q(rank[l] * x.gap, 60)])
      zof(a) == z[Tail(a)]
      size == TLCEval([a \in NL |-> LET v == nv("nodeSize", a) IN IF Wild(v) THEN -1 ELSE v[2]])
      fix == \A a \in NL : size[a] >= 0
      xs == [a \in NL |-> Pos(x, a, 1)]
      ys == [a \in NL |-> Pos(x, a, 2)]
      X == TLCEval([a \in NL |-> Scale(xs, size, x.pad, xs[a])])
      Y == TLCEval([a \in NL |-> Scale(ys, size, x.pad, ys[a])])
      lays == {l \in L : LET v == lv("layerAlpha", l) IN Wild(v) \/ v[2] # 0}
      shown == {a \in NL : size[a] # 0}
      \* layers
      gotL == Range(o.layers)
      at(l) == {g \in gotL : g.z = z[l]}
      okL(l) == \E g \in at(l) : /\ Fits(lv("layerColor", l), g.color) /\ Fits(lv("layerAlpha", l), g.alpha) /\ g.shape = x.shape
      ltext(l) == lv("layerLabel", l)
      texted == {l \in lays : ltext(l) # NONE}
      okT(l) == \E g \in Range(o.ltexts) : /\ g.z = z[l] /\ FitText(x, ltext(l), g.text) /\ Fits(lv("layerLabelLoc", l), g.loc)
                   /\ Fits(FontSize(lv("layerLabelSize", l)), g.size) /\ Fits(lv("layerLabelColor", l), g.color)
                   /\ Fits(lv("layerLabelStyle", l), g.style) /\ Fits(lv("layerLabelAlpha", l), g.alpha)
      \* nodes
      okN(a) == \E g \in Range(o.nodes) : /\ g.p = <<X[a], Y[a], zof(a)>> /\ g.r = Q(size[a], 120)
                   /\ Fits(nv("nodeColor", a), g.color)
      ntext(a) == nv("nodeLabel", a)
      ntexted == {a \in shown : ntext(a) # NONE}
      okNT(a) == \E g \in Range(o.ntexts) : /\ g.p = <<QAdd(X[a], Q(size[a], 120)), QAdd(Y[a], Q(size[a], 120)), zof(a)>>
                   /\ FitText(x, ntext(a), g.text)
                   /\ Fits(FontSize(nv("nodeLabelSize", a)), g.size) /\ Fits(nv("nodeLabelColor", a), g.color)
                   /\ Fits(nv("nodeLabelStyle", a), g.style) /\ Fits(nv("nodeLabelAlpha", a), g.alpha)
      \* edges
      pt(a) == <<X[a], Y[a], zof(a)>>
      hops(e) == LET d == rank[Tail(e[1])] - rank[Tail(e[2])] m == IF d < 0 THEN -d ELSE d IN IF m = 0 THEN 1 ELSE m
      mid(e, i) == [k \in 1..3 |-> QMid(pt(e[1])[k], pt(e[2])[k], i, hops(e))]
      SG == TLCEval([e \in E |-> TLCEval({{mid(e, i), mid(e, i + 1)} : i \in 0..(hops(e) - 1)})])
      segs(e) == SG[e]
      lines == TLCEval({[s |-> {o.lines[i].p, o.lines[i].q}, color |-> o.lines[i].color, width |-> o.lines[i].width,
                         style |-> o.lines[i].style, alpha |-> o.lines[i].alpha, zo |-> o.lines[i].zo] : i \in DOMAIN o.lines})
      okE(e) == \A s \in segs(e) : \E g \in lines : /\ g.s = s
                   /\ Fits(ev("edgeColor", e), g.color) /\ Fits(ev("edgeWidth", e), g.width)
                   /\ Fits(ev("edgeStyle", e), g.style) /\ Fits(ev("edgeAlpha", e), g.alpha)
      okLine(g) == \E e \in E : /\ g.s \in segs(e)
                   /\ Fits(ev("edgeColor", e), g.color) /\ Fits(ev("edgeWidth", e), g.width)
                   /\ Fits(ev("edgeStyle", e), g.style) /\ Fits(ev("edgeAlpha", e), g.alpha)
      \* lines of one edge between two node-layers, and their levels
      drawn == TLCEval([g \in lines |-> TLCEval({e \in E : g.s \in segs(e)})])
      simple == {g \in lines : Cardinality(drawn[g]) \in 1..2 /\ \A e \in drawn[g] : ~Wild(ev("edgeZ", e)) /\ Cardinality(segs(e)) = 1
                                /\ \A f \in drawn[g] : ev("edgeZ", e) = ev("edgeZ", f)}
      zs == [g \in simple |-> UNION {{zof(e[1]), zof(e[2])} : e \in drawn[g]}]
      zv == [g \in simple |-> (CHOOSE v \in {ev("edgeZ", e)[2] : e \in drawn[g]} : TRUE)]
      \* properties given in the order of an iteration, when all of them can be seen: the objects at the places "at"
      ordered(p) == Has(P[p].rule, "rule") /\ P[p].rule.rule = "order"
      inorder(p, its, objs, place(_, _), obsv(_), norm(_)) ==
        LET s == SetToSeq({g \in objs : \E it \in its : place(g, it)})
            w == Numbered(st, P[p].rule, Cardinality(its))
        IN  SameMulti([i \in DOMAIN s |-> obsv(s[i])], [i \in DOMAIN w |-> norm(w[i])])
      id(v) == v
      txt(v) == StrOf(x, v)
      onlayer(g, l) == g.z = z[l]
      onnode(g, a) == g.p = pt(a)
      atnode(g, a) == g.p = <<QAdd(X[a], Q(size[a], 120)), QAdd(Y[a], Q(size[a], 120)), zof(a)>>
      lord(p, obsv(_)) == ordered(p) /\ lays = L => inorder(p, InOrder(st, "layer", P[p], L), gotL, onlayer, obsv, id)
      ltord(p, obsv(_), norm(_)) == ordered(p) /\ texted = L => inorder(p, InOrder(st, "layer", P[p], L), Range(o.ltexts), onlayer, obsv, norm)
      nord(p, obsv(_)) == ordered(p) /\ fix /\ shown = NL => inorder(p, InOrder(st, "node", P[p], NL), Range(o.nodes), onnode, obsv, id)
      ntord(p, obsv(_), norm(_)) == ordered(p) /\ fix /\ ntexted = NL => inorder(p, InOrder(st, "node", P[p], NL), Range(o.ntexts), atnode, obsv, norm)
      size_(g) == g.size
      text_(g) == g.text
      color_(g) == g.color
      style_(g) == g.style
      alpha_(g) == g.alpha
      loc_(g) == g.loc
  IN UNION {
      Is("layers", Len(o.layers) = Cardinality(lays) /\ \A l \in lays : okL(l),
         IF \E l \in lays : ~okL(l) THEN <<CHOOSE l \in lays : ~okL(l), o.layers>> ELSE <<0, o.layers>>),
      Is("layer-labels", Len(o.ltexts) = Cardinality(texted) /\ \A l \in texted : okT(l), o.ltexts),
      Is("layer-order-rule", lord("layerColor", color_) /\ lord("layerAlpha", alpha_), o.layers),
      Is("layer-label-order-rule", /\ ltord("layerLabel", text_, txt) /\ ltord("layerLabelSize", size_, Font) /\ ltord("layerLabelColor", color_, id)
                                   /\ ltord("layerLabelStyle", style_, id) /\ ltord("layerLabelAlpha", alpha_, id) /\ ltord("layerLabelLoc", loc_, id), o.ltexts),
      IF ~fix THEN {} ELSE UNION {
        Is("nodes", Len(o.nodes) = Cardinality(shown) /\ \A a \in shown : okN(a),
           IF \E a \in shown : ~okN(a) THEN (LET a == CHOOSE a \in shown : ~okN(a) IN <<a, X[a], Y[a], zof(a), size[a], nv("nodeColor", a), o.nodes>>) ELSE <<Len(o.nodes), Cardinality(shown)>>),
        Is("node-order-rule", nord("nodeColor", color_), o.nodes),
        Is("node-label-order-rule", /\ ntord("nodeLabel", text_, txt) /\ ntord("nodeLabelSize", size_, Font) /\ ntord("nodeLabelColor", color_, id)
                                    /\ ntord("nodeLabelStyle", style_, id) /\ ntord("nodeLabelAlpha", alpha_, id), o.ntexts),
        Is("node-labels", Len(o.ntexts) = Cardinality(ntexted) /\ \A a \in ntexted : okNT(a),
           IF \E a \in ntexted : ~okNT(a) THEN (LET a == CHOOSE a \in ntexted : ~okNT(a) IN <<a, ntext(a), pt(a), size[a], o.ntexts>>) ELSE <<Len(o.ntexts), Cardinality(ntexted)>>),
        Is("edges-missing", \A e \in E : okE(e), IF \E e \in E : ~okE(e) THEN (LET e == CHOOSE e \in E : ~okE(e) IN <<e, segs(e), ev("edgeColor", e), ev("edgeWidth", e), ev("edgeStyle", e), ev("edgeAlpha", e), o.lines>>) ELSE <<>>),
        Is("edges-extra", \A g \in lines : okLine(g), {g \in lines : ~okLine(g)}),
        \* above others between the same layers
        Is("edge-z", \A g, h \in simple : (zs[g] = zs[h] /\ zv[g] < zv[h]) => g.zo < h.zo, o.lines)}}

BadFigure(x) ==
  LET st == NetOf(x.net) o == x.obs
      bads == {BadFigureFor(x, st, ord) : ord \in Orders(st, x.props.layerOrder)}
  IN UNION {
      IF {} \in bads THEN {} ELSE CHOOSE b \in bads : \A d \in bads : Cardinality(b) <= Cardinality(d),
      Is("axes", o.axes, x.axes),
      Is("camera", o.cam = x.cam, <<o.cam, x.cam>>),
      Is("figure-size", x.own \/ x.figsize = <<>> \/ o.figsize = x.figsize, <<o.figsize, x.figsize>>),
      Is("unknown-rules", o.refused = [k \in DOMAIN o.refused |-> TRUE], o.refused),
      FigInput(x)}

(* The scene of the three.js page *)
BadSceneFor(x, st, ord) ==
  LET o == x.obs
      P == x.props
      L == LayerTuples(st.el)
      NL == TLCEval(NodeLayers(st))
      E == TLCEval(EdgePairs(st))
      K == Len(ord)
      zof(a) == Q((K - (CHOOSE i \in 1..K : ord[i] = Tail(a))) * x.gap, 60)
      size == TLCEval([a \in NL |-> LET v == Val(st, "node", P.nodeSize, a) IN IF Wild(v) THEN -1 ELSE v[2]])
      xs == [a \in NL |-> Pos(x, a, 1)]
      ys == [a \in NL |-> Pos(x, a, 2)]
      pt == TLCEval([a \in NL |-> <<Scale(xs, size, x.pad, xs[a]), Scale(ys, size, x.pad, ys[a]), zof(a)>>])
      shown == {a \in NL : size[a] # 0}
      want == {<<pt[e[1]], pt[e[2]]>> : e \in E}
      got == {<<g.p, g.q>> : g \in Range(o.lines)}
      either(S) == S \cup {<<q[2], q[1]>> : q \in S}
  IN  IF \E a \in NL : size[a] < 0 THEN {}
      ELSE UNION {
        Is("scene-nodes", Len(o.nodes) = Cardinality(shown) /\ {g.p : g \in Range(o.nodes)} = {pt[a] : a \in shown}, <<o.nodes, pt>>),
        Is("scene-links", either(want) = either(got), <<o.lines, want>>)}
(* A D3 page: one picture for each layer, with all the nodes and the edges of the layer *)
BadPage(st, p) ==
  LET L == LayerTuples(st.el)
      at(l) == {g \in Range(p.layers) : g.label = l}
      edges(l) == {q \in EdgePairs(st) : Tail(q[1]) = l /\ Tail(q[2]) = l}
      ends(y) == IF st.dir THEN <<y[1], y[2]>> ELSE {y[1], y[2]}
      wid(w) == IF w < 0 THEN 0 ELSE w      \* the width is the square root of the weight
      want(l) == {<<IF st.dir THEN <<<<q[1][1]>>, <<q[2][1]>>>> ELSE {<<q[1][1]>>, <<q[2][1]>>}, wid(Link(st, q[1], q[2]))>> : q \in edges(l)}
  IN UNION {
      Is("page-layers", Len(p.layers) = Cardinality(L) /\ p.tops = Cardinality(L) /\ \A l \in L : Cardinality(at(l)) = 1, p),
      UNION {UNION {
        Is("page-nodes", Len(g.nodes) = Cardinality(st.el[1]) /\ Range(g.nodes) = {<<v>> : v \in st.el[1]}, g),
        Is("page-links", Len(g.lines) = Cardinality(want(g.label)) /\ {<<ends(y), y[3]>> : y \in Range(g.lines)} = want(g.label), g)}
        : g \in {h \in Range(p.layers) : h.label \in L}}}
BadWeb(x) ==
  LET st == NetOf(x.net)
  IN  FigInput(x) \cup
      (IF x.fn = "webplot" THEN UNION {BadPage(st, p) : p \in Range(x.obs.pages)}
       ELSE LET bads == {BadSceneFor(x, st, ord) : ord \in Orders(st, x.props.layerOrder)}
            IN  IF {} \in bads THEN {} ELSE CHOOSE b \in bads : TRUE)
=============================================================================
