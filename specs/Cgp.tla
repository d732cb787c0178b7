----------------------------------- MODULE Cgp -----------------------------------
(* Cartesian genetic programs: the encoding, its bounds, the active part, the value *)
(* and the loss of a program, plain, weighted or neural, and what every mutation    *)
(* operator may do to a chromosome.                                                 *)
(*                                                                                  *)
(* Node, gene and function numbers are those of the C++ interface (from 0); TLA+    *)
(* sequences start at 1, so gene i of chromosome x is x[i + 1].                      *)
EXTENDS Ops, FiniteSets

LOCAL SumTo(s, k) == FoldLeft(LAMBDA a, i : a + s[i], 0, [i \in 1..k |-> i])
\* the geometry of a program: inputs (ephemeral constants included), outputs, rows, columns, levels back, arities
Nodes(g) == g.n + g.r * g.c
Col(g, k) == (k - g.n) \div g.r
Arity(g, k) == g.ar[Col(g, k) + 1]
IsNode(g, k) == k >= g.n /\ k < Nodes(g)
GeneIdx(g, k) == IF k < g.n THEN 0 ELSE
    SumTo(g.ar, Col(g, k)) * g.r + ((k - g.n) % g.r) * Arity(g, k) + (k - g.n)
NGenes(g) == g.r * g.c + g.r * SumTo(g.ar, g.c) + g.m
LOCAL NodeIds(g) == [i \in 1..(g.r * g.c) |-> g.n + i - 1]
LOCAL Rep(v, k) == [i \in 1..k |-> v]
UbOf(g, nf) ==
    FoldLeft(LAMBDA a, k : a \o << nf - 1 >> \o Rep(g.n + Col(g, k) * g.r - 1, Arity(g, k)), << >>, NodeIds(g))
    \o Rep(Nodes(g) - 1, g.m)
LbOf(g, nf) ==
    FoldLeft(LAMBDA a, k : a \o << 0 >> \o
                Rep(IF Col(g, k) >= g.l THEN g.n + (Col(g, k) - g.l) * g.r ELSE 0, Arity(g, k)), << >>, NodeIds(g))
    \o Rep(IF g.l <= g.c THEN g.n + g.r * (g.c - g.l) ELSE 0, g.m)
ValidArgs(n, m, r, c, l, ar, nf) ==
    n > 0 /\ m > 0 /\ r > 0 /\ c > 0 /\ l > 0 /\ Len(ar) = c /\ (\A i \in 1..Len(ar) : ar[i] > 0) /\ nf > 0
\* geometry with the derived tables
Geo(n, m, r, c, l, ar, f) ==
    LET g == [n |-> n, m |-> m, r |-> r, c |-> c, l |-> l, ar |-> ar]
    IN [n |-> n, m |-> m, r |-> r, c |-> c, l |-> l, ar |-> ar, f |-> f,
        lb |-> LbOf(g, Len(f)), ub |-> UbOf(g, Len(f)),
        gi |-> [k \in 1..Nodes(g) |-> GeneIdx(g, k - 1)]]
Gi(g, k) == g.gi[k + 1]
Valid(g, x) == Len(x) = Len(g.lb) /\ \A i \in 1..Len(x) : g.lb[i] <= x[i] /\ x[i] <= g.ub[i]
FGene(g, x, k) == x[Gi(g, k) + 1]
Conn(g, x, k, j) == x[Gi(g, k) + 1 + j]                     \* j = 1..arity
OutNode(g, x, i) == x[Len(x) - g.m + i]                     \* i = 1..m
Outs(g, x) == { OutNode(g, x, i) : i \in 1..g.m }
FeedForward(g, x) == \A k \in g.n..(Nodes(g) - 1) : \A j \in 1..Arity(g, k) :
    Conn(g, x, k, j) < g.n \/ Col(g, Conn(g, x, k, j)) < Col(g, k)

LOCAL Down(g) == [i \in 1..(g.r * g.c) |-> Nodes(g) - i]
ActiveNodes(g, x) ==
    FoldLeft(LAMBDA s, k : IF k \in s THEN s \cup { Conn(g, x, k, j) : j \in 1..Arity(g, k) } ELSE s,
             Outs(g, x), Down(g))
Sorted(s) == SetToSortSeq(s, LAMBDA a, b : a < b)
GenesOf(g, k) == { Gi(g, k) + j : j \in 0..Arity(g, k) }
OutGenes(g) == { Len(g.lb) - g.m + i - 1 : i \in 1..g.m }
ActiveGenes(g, x) == UNION { GenesOf(g, k) : k \in ActiveNodes(g, x) \ (0..(g.n - 1)) } \cup OutGenes(g)
AllGenes(g) == 0..(Len(g.lb) - 1)
FGenes(g, x) == { Gi(g, k) : k \in ActiveNodes(g, x) \ (0..(g.n - 1)) }
CGenes(g, x) == UNION { { Gi(g, k) + j : j \in 1..Arity(g, k) } : k \in ActiveNodes(g, x) \ (0..(g.n - 1)) }

\* index in the weight vector of input j (from 0) of node k, and of its bias
WIdx(g, k, j) == Gi(g, k) - (k - g.n) + j
BIdx(g, k) == k - g.n
NWeights(g) == g.r * SumTo(g.ar, g.c)
NBiases(g) == g.r * g.c

----------------------------------------------------------------------------------
(* Values.  w, b: weights and biases (<< >> when there are none), in: jets of the    *)
(* inputs, ephemeral constants included.                                            *)
NodeArgs(g, x, w, b, vals, k) ==
    LET raw == [j \in 1..Arity(g, k) |-> vals[Conn(g, x, k, j) + 1]]
        wt == IF w = << >> THEN raw ELSE [j \in 1..Arity(g, k) |-> JMul(raw[j], w[WIdx(g, k, j - 1) + 1])]
    IN Now(IF b = << >> THEN wt ELSE [wt EXCEPT ![1] = JAdd(wt[1], b[BIdx(g, k) + 1])])
AllVals(g, x, w, b, in) ==
    LET act == ActiveNodes(g, x)
    IN FoldLeft(LAMBDA vals, k :
                   Append(vals, IF k \in act THEN Apply(g.f[FGene(g, x, k) + 1], NodeArgs(g, x, w, b, vals, k)) ELSE JNum(Zero)),
                in, NodeIds(g))
EvalCgp(g, x, w, b, in) ==
    LET vals == AllVals(g, x, w, b, in) IN Now([i \in 1..g.m |-> vals[OutNode(g, x, i) + 1]])

\* loss of one point given outputs and label (jets)
LossMse(o, y) ==
    LET d(i) == JMul(JSub(o[i], y[i]), JSub(o[i], y[i]))
    IN JDiv(FoldLeft(LAMBDA a, i : JAdd(a, d(i)), JNum(Zero), [i \in 1..Len(o) |-> i]), JInt(Len(o)))
LossCe(o, y) ==
    LET mx == FoldLeft(LAMBDA a, i : DMax(a, o[i].v), o[1].v, [i \in 1..Len(o) |-> i])
        d == Now([i \in 1..Len(o) |-> JSub(o[i], JNum(DExactV(mx)))])
        s == JLog(FoldLeft(LAMBDA a, x : JAdd(a, JExp(x)), JNum(Zero), d))
    IN JNeg(FoldLeft(LAMBDA a, i : JAdd(a, JMul(JSub(d[i], s), y[i])), JNum(Zero), [i \in 1..Len(o) |-> i]))
Loss1(kind, o, y) == IF kind = "MSE" THEN LossMse(o, y) ELSE LossCe(o, y)
JMean(q) == JDiv(FoldLeft(LAMBDA a, x : JAdd(a, x), JNum(Zero), q), JInt(Len(q)))

----------------------------------------------------------------------------------
(* Mutation.  Range of gene i, and what k mutations of a gene can do to its value.   *)
Rng(g, i) == g.ub[i + 1] - g.lb[i + 1] + 1
InB(g, i, v) == g.lb[i + 1] <= v /\ v <= g.ub[i + 1]
GeneAfter(g, i, k, v, w) ==
    /\ InB(g, i, w)
    /\ CASE k = 0 -> w = v
         [] Rng(g, i) = 1 -> w = v
         [] k = 1 -> w # v
         [] Rng(g, i) = 2 -> (k % 2 = 0) <=> (w = v)
         [] OTHER -> TRUE
LOCAL Times(q, i) == Cardinality({ p \in 1..Len(q) : q[p] = i })
\* the genes listed, in order, with repetitions
RMutList(g, x, y, q) == \A i \in AllGenes(g) : GeneAfter(g, i, Times(q, i), x[i + 1], y[i + 1])
\* N draws, with repetition, from the genes s
RMutDraws(g, x, y, s, N) ==
    LET d == { i \in AllGenes(g) : x[i + 1] # y[i + 1] }
        slack == N - Cardinality(d)
    IN /\ Valid(g, y)
       /\ d \subseteq s
       /\ slack >= 0
       /\ s # {} =>
            \/ slack = 0
            \/ \E i \in s : Rng(g, i) = 1
            \/ \E i \in d : Rng(g, i) >= 3
            \/ slack % 2 = 0
            \/ slack >= 3 /\ \E i \in s : Rng(g, i) >= 3
\* up to N genes of s
RMutUpTo(g, x, y, s, N) ==
    LET d == { i \in AllGenes(g) : x[i + 1] # y[i + 1] }
    IN Valid(g, y) /\ d \subseteq s /\ Cardinality(d) <= N
RMut1(g, x, y, i) == RMutList(g, x, y, << i >>)
RInactive(g, x, y, N) == RMutUpTo(g, x, y, AllGenes(g) \ ActiveGenes(g, x), N)
RActive(g, x, y, N) == RMutDraws(g, x, y, ActiveGenes(g, x), N)
RActiveF(g, x, y, N) == RMutDraws(g, x, y, FGenes(g, x), N)
ROut(g, x, y, N) == RMutDraws(g, x, y, OutGenes(g), N)
RRandom(g, x, y, N) == RMutDraws(g, x, y, AllGenes(g), N)
\* connection mutations change which genes are active: each step is classed anew
LOCAL CStep(g, x) == LET s == CGenes(g, x) IN
    IF s = {} THEN {x} ELSE
    UNION { IF Rng(g, i) = 1 THEN {x} ELSE { [x EXCEPT ![i + 1] = v] : v \in (g.lb[i + 1]..g.ub[i + 1]) \ {x[i + 1]} } : i \in s }
RECURSIVE RActiveC(_, _, _, _)
RActiveC(g, x, y, N) ==
    IF N = 0 THEN x = y
    ELSE IF CGenes(g, x) = {} THEN x = y
    ELSE IF Cardinality({ i \in AllGenes(g) : x[i + 1] # y[i + 1] }) > N THEN FALSE
    ELSE IF N = 1 THEN RMutDraws(g, x, y, CGenes(g, x), 1)
    ELSE IF N > 3 THEN RMutUpTo(g, x, y, (AllGenes(g) \ OutGenes(g)) \ { Gi(g, k) : k \in g.n..(Nodes(g) - 1) }, N)
    ELSE \E z \in CStep(g, x) : RActiveC(g, z, y, N - 1)
\* all (gene, value) pairs one mutation drawn from s can produce
Reachable(g, x, s) == UNION { { << i, v >> : v \in (g.lb[i + 1]..g.ub[i + 1]) \ {x[i + 1]} } : i \in s }
RMutation(g, op, x, y, N) ==
    CASE op = "MutR" -> RRandom(g, x, y, N)
      [] op = "MutI" -> RInactive(g, x, y, N)
      [] op = "MutA" -> RActive(g, x, y, N)
      [] op = "MutAF" -> RActiveF(g, x, y, N)
      [] op = "MutAC" -> RActiveC(g, x, y, N)
      [] op = "MutO" -> ROut(g, x, y, N)
ClassOf(g, op, x) ==
    CASE op = "MutR" -> AllGenes(g)
      [] op = "MutI" -> AllGenes(g) \ ActiveGenes(g, x)
      [] op = "MutA" -> ActiveGenes(g, x)
      [] op = "MutAF" -> FGenes(g, x)
      [] op = "MutAC" -> CGenes(g, x)
      [] op = "MutO" -> OutGenes(g)
===================================================================================
