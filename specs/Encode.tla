---------------------------------- MODULE Encode ----------------------------------
(* Writing a feed forward network as a Cartesian program: what is asked for, when a  *)
(* program is that network (wherever its neurons are placed), and one way of writing *)
(* it, gene block by gene block.                                                     *)
EXTENDS Cgp
\* a request: inputs n, outputs m, sizes of the hidden layers, kernel names (one more than layers), levels back
NLay(q) == Len(q.layers) + 1
SizeOf(q, k) == IF k = 0 THEN q.n ELSE IF k = NLay(q) THEN q.m ELSE q.layers[k]
GoodReq(q, allowed) ==
    /\ q.n > 0 /\ q.m > 0 /\ q.lb > 0
    /\ Len(q.ks) = NLay(q) /\ (\A i \in 1..Len(q.ks) : q.ks[i] \in allowed)
    /\ \A i \in 1..Len(q.layers) : q.layers[i] > 0
\* the nodes feeding node k, and whether each comes once
Sources(g, x, k) == { Conn(g, x, k, j) : j \in 1..Arity(g, k) }
\* the set of neurons of layer k is S: the layers below are then determined
RECURSIVE Layered(_, _, _, _, _)
Layered(q, g, x, k, S) ==
    IF k = 0 THEN S = 0..(q.n - 1)
    ELSE /\ Cardinality(S) = SizeOf(q, k)
         /\ \A s \in S : /\ IsNode(g, s)
                         /\ g.f[FGene(g, x, s) + 1] = q.ks[k]
                         /\ Arity(g, s) = SizeOf(q, k - 1)
                         /\ Cardinality(Sources(g, x, s)) = SizeOf(q, k - 1)
                         /\ \A t \in S : Sources(g, x, s) = Sources(g, x, t)
         /\ Layered(q, g, x, k - 1, Sources(g, x, CHOOSE s \in S : TRUE))
IsNetwork(q, g, x) ==
    /\ g.n = q.n /\ g.m = q.m /\ g.l = q.lb
    /\ Valid(g, x) /\ FeedForward(g, x)
    /\ Layered(q, g, x, NLay(q), Outs(g, x))
    /\ Cardinality(Outs(g, x)) = q.m
\* how many weights and biases act: those of a dense network
RECURSIVE DenseW(_, _)
DenseW(q, k) == IF k = 0 THEN 0 ELSE SizeOf(q, k) * SizeOf(q, k - 1) + DenseW(q, k - 1)
RECURSIVE DenseB(_, _)
DenseB(q, k) == IF k = 0 THEN 0 ELSE SizeOf(q, k) + DenseB(q, k - 1)
ActW(g, x) == FoldLeft(LAMBDA a, k : a + Arity(g, k), 0, Sorted(ActiveNodes(g, x) \ (0..(g.n - 1))))
ActB(g, x) == Cardinality(ActiveNodes(g, x) \ (0..(g.n - 1)))
\* the value of the dense network, layer by layer, from the weights of its neurons
EncGeo(q, f) ==
    LET szs == [k \in 1..NLay(q) |-> SizeOf(q, k)]
        r == FoldLeft(LAMBDA a, s : IF s > a THEN s ELSE a, 0, szs)
    IN Geo(q.n, q.m, r, NLay(q), q.lb, << q.n >> \o q.layers, f)
===================================================================================
