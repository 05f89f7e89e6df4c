------------------------------- MODULE NetGen -------------------------------
(***************************************************************************)
(* Random behaviours of MLNet, written out as operation sequences for      *)
(* replay into the real library.  Config file (JSON): list of              *)
(*   [cfg, nodes, layers (one seq per aspect), weights, n (how many), len] *)
(***************************************************************************)
EXTENDS MLNet, Json, IOUtils, SequencesExt

Params == JsonDeserialize(IOEnv.GEN_FILE)

VARIABLES p, id, net, hist
vars == <<p, id, net, hist>>

Init == /\ p \in 1..Len(Params)
        /\ id \in 1..Params[p].n
        /\ net = New(Params[p].cfg)
        /\ hist = <<>>

LTs(P) == LayerTuples(<<{}>> \o P.layers)
\* the JSON gives sequences; sets are needed for drawing
P0 == Params[p]
ElSets == [k \in 1..(P0.cfg.asp + 1) |-> IF k = 1 THEN Range(P0.nodes) ELSE Range(P0.layers[k-1])]
R(S) == RandomElement(S)

Step(op) == /\ net' = Apply(net, op)
            /\ hist' = Append(hist, op)

EdgeW == Range(P0.weights)
RandSet ==
  \E a \in {R(Product(ElSets))}, b0 \in {R(Product(ElSets))}, w \in {R(EdgeW)}, f \in {R(0..3)},
     c \in {R(1..10)} :
    LET b == IF P0.cfg.kind = "mx" THEN (IF c = 1 THEN b0 ELSE <<b0[1]>> \o Tail(a))
             ELSE IF c <= 2 THEN <<b0[1]>> \o Tail(a) ELSE IF c = 3 THEN a ELSE b0
        op == [k |-> "set", a |-> a, b |-> b, w |-> w, f |-> f]
    IN  IF Writable(net, a, b) \/ Rejected(net, op) THEN Step(op)
        ELSE Step([k |-> "node", n |-> a[1]])
RandReset ==        \* overwrite or remove an edge that is there
  /\ DOMAIN net.e # {}
  /\ \E q \in {R(DOMAIN net.e)}, c \in {R(1..3)}, w \in {R(EdgeW)}, f \in {R(0..3)} :
       Step([k |-> "set", a |-> q[1], b |-> q[2], w |-> IF c = 1 THEN w ELSE net.noedge, f |-> f])
RandNode == \E n \in {R(ElSets[1])} : Step([k |-> "node", n |-> n])
RandNodeAt ==
  /\ net.asp > 0
  /\ \E n \in {R(ElSets[1])}, l \in {R(LayerTuples(ElSets))} :
       Step([k |-> "nodeat", n |-> n, l |-> l])
RandLayer ==
  \E x \in {R(0..P0.cfg.asp)} : \E n \in {R(ElSets[x+1])} : Step([k |-> "layer", n |-> n, x |-> x])
RandIntra ==
  /\ net.kind = "mx" /\ LayerTuples(net.el) # {}
  /\ \E l \in {R(LayerTuples(net.el))}, c \in {R(1..10)}, i \in {R(ElSets[1])}, j \in {R(ElSets[1])},
        w \in {R(EdgeW)}, w2 \in {R(EdgeW)}, h \in {R(ElSets[1])} :
       IF c <= 7 /\ i # j THEN Step([k |-> "iset", l |-> l, a |-> i, b |-> j, w |-> w])
       ELSE IF c = 8 /\ i # j /\ w # net.noedge
            THEN Step([k |-> "aset", l |-> l, ns |-> <<i, j, h>>,
                       es |-> IF h # i /\ h # j /\ w2 # net.noedge
                              THEN <<<<i, j, w>>, <<i, h, w2>>>> ELSE <<<<i, j, w>>>>])
            ELSE Step([k |-> "inode", l |-> l, n |-> i])

Next ==
  /\ Len(hist) < P0.len
  /\ UNCHANGED <<p, id>>
  /\ \E r \in {R(1..20)} :
       IF r <= 9 THEN RandSet
       ELSE IF r <= 13 /\ DOMAIN net.e # {} THEN RandReset
       ELSE IF r <= 15 /\ net.asp > 0 THEN RandNodeAt
       ELSE IF r <= 18 /\ net.kind = "mx" /\ LayerTuples(net.el) # {} THEN RandIntra
       ELSE IF r = 19 THEN RandNode
       ELSE RandLayer
Spec == Init /\ [][Next]_vars

Inv == StateInv(net)
Emit == Len(hist) = P0.len =>
          PrintT("GEN " \o ToJson([p |-> p, ops |-> hist]))
=============================================================================
