---------------------------------- MODULE MCCgp ----------------------------------
(* The encoding on its own: every chromosome of several small geometries, mutated   *)
(* one gene at a time by each operator.  Checked: chromosomes stay valid and feed-   *)
(* forward; the active sets are the declarative closure and are all a program       *)
(* depends on; the tables that place genes, weights and biases are bijections; and   *)
(* the relations CgpTrace judges N-fold mutations by are exactly N single steps.     *)
EXTENDS Cgp
CONSTANTS GEO, N, BROKEN
Geos == << Geo(1, 1, 1, 2, 2, << 2, 2 >>, << "f", "g" >>),
           Geo(1, 2, 1, 2, 1, << 1, 2 >>, << "f", "g" >>),
           Geo(2, 1, 2, 1, 1, << 1 >>, << "f" >>),
           Geo(1, 1, 2, 2, 1, << 1, 2 >>, << "f" >>),
           Geo(2, 1, 1, 2, 3, << 1, 1 >>, << "f", "g" >>),
           Geo(1, 2, 1, 2, 2, << 1, 1 >>, << "f", "g", "h" >>),
           Geo(2, 2, 1, 2, 2, << 1, 1 >>, << "f", "g" >>),
           Geo(1, 1, 1, 3, 2, << 1, 2, 1 >>, << "f", "g" >>) >>
VARIABLES g, x, op
vars == << g, x, op >>
RECURSIVE ChromsUpTo(_, _)
ChromsUpTo(h, k) == IF k = 0 THEN { << >> } ELSE { Append(s, v) : s \in ChromsUpTo(h, k - 1), v \in h.lb[k]..h.ub[k] }
Chroms(h) == ChromsUpTo(h, Len(h.lb))
Table == [i \in GEO |-> Chroms(Geos[i])]
Ops6 == {"MutR", "MutI", "MutA", "MutAF", "MutAC", "MutO"}
\* one mutation of a gene drawn from s
One1(s, y) == IF s = {} THEN {y} ELSE UNION { IF Rng(g, i) = 1 THEN {y} ELSE
    { [y EXCEPT ![i + 1] = v] : v \in (g.lb[i + 1]..g.ub[i + 1]) \ {y[i + 1]} } : i \in s }
\* a mutation of inactive genes may draw an active one, and then does nothing
Class(o, y) == IF BROKEN = "active" /\ o = "MutI" THEN AllGenes(g) ELSE ClassOf(g, o, y)
Step(o, y) == One1(Class(o, y), y) \cup (IF o = "MutI" THEN {y} ELSE {})
RECURSIVE Steps(_, _, _)
\* mutate_active and mutate_ogene pick their genes first; the others as they go
Steps(o, y, k) == IF k = 0 THEN {y} ELSE UNION { Steps(o, z, k - 1) : z \in Step(o, y) }
RECURSIVE StepsIn(_, _, _)
StepsIn(s, y, k) == IF k = 0 THEN {y} ELSE UNION { StepsIn(s, z, k - 1) : z \in One1(s, y) }
Outcomes(o, y, k) == IF o \in {"MutA", "MutO", "MutR"} THEN StepsIn(Class(o, y), y, k) ELSE Steps(o, y, k)

Init == \E i \in GEO : g = Geos[i] /\ x \in Table[i] /\ op = "none"
Next == /\ UNCHANGED g
        /\ \E o \in Ops6 : op' = o /\ x' \in Step(o, x)
Spec == Init /\ [][Next]_vars

ValidInv == Valid(g, x) /\ FeedForward(g, x)
\* nodes from which a path leads to an output, defined without the backward sweep
EdgeSet == UNION { { << k, Conn(g, x, k, j) >> : j \in 1..Arity(g, k) } : k \in g.n..(Nodes(g) - 1) }
RECURSIVE Closure(_)
Closure(s) == LET t == s \cup { e[2] : e \in { d \in EdgeSet : d[1] \in s } } IN IF t = s THEN s ELSE Closure(t)
ActiveInv == ActiveNodes(g, x) = Closure(Outs(g, x))
GenesInv == ActiveGenes(g, x) = OutGenes(g) \cup UNION { GenesOf(g, k) : k \in { q \in Closure(Outs(g, x)) : q >= g.n } }
\* what the outputs compute, as terms
RECURSIVE Term(_, _)
Term(y, k) == IF k < g.n THEN << "x", k >> ELSE << g.f[FGene(g, y, k) + 1], [j \in 1..Arity(g, k) |-> Term(y, Conn(g, y, k, j))] >>
Terms(y) == [i \in 1..g.m |-> Term(y, OutNode(g, y, i))]
\* inactive genes do not matter
InactiveInv == \A y \in Step("MutI", x) : Terms(y) = Terms(x) /\ ActiveNodes(g, y) = ActiveNodes(g, x) /\ ActiveGenes(g, y) = ActiveGenes(g, x)
\* every gene of an active node does matter (a different value encodes a different term)
ActiveMatters == \A i \in ActiveGenes(g, x) : \A v \in (g.lb[i + 1]..g.ub[i + 1]) \ {x[i + 1]} :
    ActiveNodes(g, [x EXCEPT ![i + 1] = v]) # ActiveNodes(g, x) \/ Terms([x EXCEPT ![i + 1] = v]) # Terms(x)
Tables ==
    LET ns == g.n..(Nodes(g) - 1) IN
    /\ UNION { GenesOf(g, k) : k \in ns } \cup OutGenes(g) = AllGenes(g)
    /\ \A k \in ns : \A q \in ns : k # q => GenesOf(g, k) \cap GenesOf(g, q) = {}
    /\ { WIdx(g, e[1], e[2]) : e \in UNION { { << k, j >> : j \in 0..(Arity(g, k) - 1) } : k \in ns } } = 0..(NWeights(g) - 1)
    /\ { BIdx(g, k) : k \in ns } = 0..(NBiases(g) - 1)
    /\ NGenes(g) = Len(g.lb)
\* bounds say: earlier column or input, at most l columns back
BoundsMean == \A k \in g.n..(Nodes(g) - 1) : \A j \in 1..Arity(g, k) :
    LET i == Gi(g, k) + j IN
    { v \in 0..(Nodes(g) - 1) : InB(g, i, v) } =
    { v \in 0..(Nodes(g) - 1) : IF v < g.n THEN Col(g, k) < g.l ELSE Col(g, v) < Col(g, k) /\ Col(g, k) - Col(g, v) <= g.l }
OutBounds == \A i \in OutGenes(g) : { v \in 0..(Nodes(g) - 1) : InB(g, i, v) } =
    { v \in 0..(Nodes(g) - 1) : IF v < g.n THEN g.c < g.l ELSE g.c - Col(g, v) <= g.l }
\* the relations are the outcomes of k single steps
Relations == \A o \in Ops6 : \A k \in 0..N :
    LET out == Outcomes(o, x, k) IN
    IF o = "MutI" THEN \A y \in out : RMutation(g, o, x, y, k)
    ELSE { y \in Table[CHOOSE i \in GEO : Geos[i] = g] : RMutation(g, o, x, y, k) } = out
Inert == [][ op' = "MutI" => ActiveNodes(g', x') = ActiveNodes(g, x) ]_vars
===================================================================================
