--------------------------------- MODULE CgpTrace ---------------------------------
(* Histories of real programs (plain, weighted, neural) against Cgp.  The state      *)
(* holds what each of three programs must be; the engine of a program is a token,   *)
(* and the outcome of a random operation is a function (tab), filled as outcomes    *)
(* are seen, of that token, the program and the operation: copies, reloaded and     *)
(* equally seeded programs have equal tokens and so must react identically.         *)
EXTENDS CgpObj, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
Prop == IOEnv.PROP
VARIABLES l, objs, tab
vars == << l, objs, tab >>
Ev == Trace[l]
Chk(p, why, c) == IF p # Prop THEN TRUE ELSE IF c THEN TRUE ELSE PrintT(<< "REJECT", l, why, Ev >>) /\ FALSE
Is(e) == l <= Len(Trace) /\ Ev.event = e /\ l' = l + 1
Slots == 1..3
Dead == [s |-> "no"]
Live(a) == objs[a].s = "ok"

\* a live program against what is observed of it
Structure(o, r) == r.x = o.x /\ r.ev = o.ev /\ r.es = o.es /\ r.w = o.w /\ r.b = o.b
\* what a weighted or neural program with a correction does: the correction, or (known finding) nothing
Overridden(o) == o.kind # "plain" /\ o.pc.id # "none"
Finding(p, id) == IF p = Prop THEN PrintT(<< "FINDING", id >>) ELSE TRUE
\* good: what the code is known to do; right: what the property asks
Excused(o, p, why, good, right) ==
    IF p # Prop THEN TRUE ELSE
    IF ~Overridden(o) THEN Chk(p, why, good)
    ELSE IF right THEN TRUE ELSE IF good THEN Finding(p, "correction-ignored-by-" \o o.kind) ELSE Chk(p, why, FALSE)
SeenOk(a, o, r) ==
    LET valid == Valid(o.g, r.x) /\ Len(r.ev) = Len(o.ev) /\ Len(r.w) = Len(o.w) /\ Len(r.b) = Len(o.b) IN
    /\ Chk("C06", << "genes out of bounds", a >>, Valid(o.g, r.x) /\ FeedForward(o.g, r.x))
    /\ Chk(IF a = Ev.a /\ Ev.op \notin {"New", "Copy", "Move"} THEN "C06" ELSE "C11", << "chromosome", a, o.x >>, r.x = o.x)
    /\ Chk(IF a = Ev.a /\ Ev.op \notin {"New", "Copy", "Move"} THEN "C14" ELSE "C11", << "ephemeral constants", a, o.ev, o.es >>,
           r.ev = o.ev /\ r.es = o.es)
    /\ Chk(IF a = Ev.a /\ Ev.op = "Sgd" THEN "C18" ELSE IF a = Ev.a /\ Ev.op \notin {"New", "Copy", "Move"} THEN WProp(o) ELSE "C11",
           << "weights or biases", a, o.w, o.b >>, r.w = o.w /\ r.b = o.b)
    /\ Chk("C14", << "number of constants", a >>, Len(r.ev) = Len(o.ev) /\ Len(r.es) = Len(o.es))
    /\ IF "g" \in DOMAIN r
       THEN LET p == IF a = Ev.a /\ Ev.op = "New" THEN "C06" ELSE "C11"
            IN /\ Chk(p, << "geometry", a, o.g >>, \A k \in {"n", "m", "r", "c", "l", "ar", "f"} : r.g[k] = o.g[k])
               /\ Chk("C06", << "bounds", a, o.g >>, r.g.lb = o.g.lb /\ r.g.ub = o.g.ub)
               /\ Chk("C06", << "gene positions", a, o.g >>, r.g.gi = o.g.gi)
       ELSE TRUE
    /\ IF ~valid THEN TRUE ELSE
       /\ Chk("C07", << "active nodes", a >>, r.an = Sorted(ActiveNodes(o.g, r.x)))
       /\ Chk("C07", << "active genes", a >>, r.ag = Sorted(ActiveGenes(o.g, r.x)))
       /\ LET in == IF "gr" \in DOMAIN r THEN [i \in 1..Len(r.p) |-> JVar1(r.p[i], i, Len(r.p))] ELSE JSeq(r.p)
              want == EvalObj(o, r.x, r.ev, r.w, r.b, in)
              good == IF "gr" \in DOMAIN r /\ ~Regular(o, r.x, r.ev, r.w, r.b, in) THEN TRUE ELSE
                      SameVals(want, r.o)
                      /\ (IF "gr" \in DOMAIN r THEN \A i \in 1..Len(r.gr) : \A j \in 1..Len(r.p) :
                              DAgrees(IF Len(want[i].g) = 0 THEN Zero ELSE want[i].g[j], r.gr[i][j]) ELSE TRUE)
              cor == LET raw(p) == EvalCgp(o.g, r.x, JSeq(r.w), JSeq(r.b), p \o JSeq(r.ev)) IN Corr(o.pc, raw, in)
          IN /\ Excused(o, EvalProp(o), << "value", a, [i \in 1..Len(want) |-> DShow(want[i].v)], [i \in 1..Len(r.o) |-> DShow(r.o[i])] >>, good, SameVals(cor, r.o))
             /\ IF Len(o.ev) > 0 /\ o.pc.id = "none" THEN Chk("C14", << "value", a >>, good) ELSE TRUE
             /\ IF a # Ev.a \/ Ev.op \in {"Copy", "Move"} THEN Chk("C11", << "value of a copy", a >>, Structure(o, r) => good) ELSE TRUE
       /\ IF "t" \in DOMAIN r
          THEN /\ Chk("C09", << "printed formula", a, r.t >>, TextOk(o, r.x, r.ev, r.w, r.b, r.p, r.t))
               /\ IF Len(o.ev) > 0 THEN Chk("C14", << "printed formula", a, r.t >>, TextOk(o, r.x, r.ev, r.w, r.b, r.p, r.t)) ELSE TRUE
               /\ IF o.kind # "plain" THEN Chk(WProp(o), << "printed formula", a, r.t >>, TextOk(o, r.x, r.ev, r.w, r.b, r.p, r.t)) ELSE TRUE
          ELSE TRUE
SeenAll == \A a \in Slots :
    /\ Chk("C11", << "alive", a >>, (Ev.objs[a].s = "ok") = (objs'[a].s = "ok"))
    /\ IF Ev.objs[a].s = "ok" /\ objs'[a].s = "ok" THEN SeenOk(a, objs'[a], Ev.objs[a]) ELSE TRUE

----------------------------------------------------------------------------------
Obs(a) == Ev.objs[a]
Set1(a, o) == objs' = [objs EXCEPT ![a] = o]
Same == UNCHANGED objs
Threw(p, t) == Chk(p, << "raised, or did not raise", t >>, Ev.threw = t)
AnnKernels == {"tanh", "sig", "ReLu", "ELU", "ISRU", "sin_nu", "cos_nu", "gaussian_nu", "sum", "inv_sum", "abs", "step"}
Remember(key, val) == tab' = IF key \in DOMAIN tab THEN tab ELSE (key :> val) @@ tab
Recall(key, val) == Chk("C11", << "random outcome differs from that of an equal program", key >>, key \in DOMAIN tab => tab[key].v = val)
NewTok(key) == IF key \in DOMAIN tab THEN tab[key].t ELSE << "t", Cardinality(DOMAIN tab) >>

New == LET a == Ev.a
           ok == /\ ValidArgs(Ev.n + Ev.ne, Ev.m, Ev.r, Ev.c, Ev.l, Ev.ar, Len(Ev.f))
                 /\ Ev.kind = "ann" => \A i \in 1..Len(Ev.f) : Ev.f[i] \in AnnKernels
           key == << "New", Ev.kind, Ev.n, Ev.m, Ev.r, Ev.c, Ev.l, Ev.ar, Ev.f, Ev.ne, Ev.seed >>
       IN /\ Threw("C06", ~ok)
          /\ IF ~ok THEN Same /\ UNCHANGED tab
             ELSE LET g == Geo(Ev.n + Ev.ne, Ev.m, Ev.r, Ev.c, Ev.l, Ev.ar, Ev.f)
                      r == Obs(a)
                      val == << r.x, r.ev >>
                      o == [s |-> "ok", kind |-> Ev.kind, g |-> g, x |-> r.x, ev |-> r.ev, es |-> [i \in 1..Ev.ne |-> "c" \o ToString(i)],
                            w |-> IF Ev.kind = "plain" THEN << >> ELSE [i \in 1..NWeights(g) |-> One],
                            b |-> IF Ev.kind = "ann" THEN [i \in 1..NBiases(g) |-> Zero] ELSE << >>,
                            pc |-> NoPc, tok |-> NewTok(key)]
                  IN /\ Chk("C14", "initial constants", Len(r.ev) = Ev.ne /\ r.es = o.es
                            /\ \A i \in 1..Len(r.ev) : DLe(DInt(-10), r.ev[i]) /\ DLe(r.ev[i], DInt(10)))
                     /\ Chk(WProp(o), "initial weights and biases", r.w = o.w /\ r.b = o.b)
                     /\ Recall(key, val)
                     /\ Set1(a, o) /\ Remember(key, [v |-> val, t |-> o.tok])
Copy == Set1(Ev.a, objs[Ev.b]) /\ UNCHANGED tab /\ Threw("C11", FALSE)
Move == objs' = [objs EXCEPT ![Ev.a] = objs[Ev.b], ![Ev.b] = Dead] /\ UNCHANGED tab /\ Threw("C11", FALSE)
Destroy == Set1(Ev.a, Dead) /\ UNCHANGED tab /\ Threw("C11", FALSE)

O == objs[Ev.a]
Upd(p, bad, o) == Threw(p, bad) /\ (IF bad THEN Same ELSE Set1(Ev.a, o)) /\ UNCHANGED tab
SetX == Upd("C06", ~Valid(O.g, Ev.x), [O EXCEPT !.x = Ev.x])
SetF == LET bad == Ev.f >= Len(O.g.f) \/ ~IsNode(O.g, Ev.node)
        IN Upd("C06", bad, [O EXCEPT !.x = [O.x EXCEPT ![Gi(O.g, IF bad THEN O.g.n ELSE Ev.node) + 1] = Ev.f]])
SetEph == Upd("C14", Len(Ev.ev) # Len(O.ev), [O EXCEPT !.ev = Ev.ev])
SetSym == Upd("C14", Len(Ev.es) # Len(O.es), [O EXCEPT !.es = Ev.es])
SeedOp == Upd("C11", FALSE, [O EXCEPT !.tok = << "seed", Ev.seed >>])
SetPC == Upd("C13", FALSE, [O EXCEPT !.pc = Ev.pc])
UnsetPC == Upd("C13", FALSE, [O EXCEPT !.pc = NoPc])
GKey(o) == << o.g.n, o.g.m, o.g.r, o.g.c, o.g.l, o.g.ar, Len(o.g.f) >>
Mutate(arg, rel) ==
    LET key == << Ev.op, arg, O.tok, GKey(O), O.x >>
        y == Obs(Ev.a).x
    IN /\ Chk("C10", << "mutation", O.g, O.x, y >>, Len(y) = Len(O.x) /\ rel)
       /\ Recall(key, y)
       /\ Set1(Ev.a, [O EXCEPT !.x = y, !.tok = NewTok(key)])
       /\ Remember(key, [v |-> y, t |-> NewTok(key)])
MutL == LET bad == \E i \in 1..Len(Ev.idx) : Ev.idx[i] >= Len(O.g.lb)
        IN /\ Threw("C06", bad)
           /\ IF bad THEN Same /\ UNCHANGED tab ELSE Mutate(Ev.idx, RMutList(O.g, O.x, Obs(Ev.a).x, Ev.idx))
MutN == /\ Threw("C10", FALSE)
        /\ Mutate(Ev.n, RMutation(O.g, Ev.op, O.x, Obs(Ev.a).x, Ev.n))
        /\ IF Ev.op = "MutI"
           THEN Chk("C10", "a mutation of inactive genes changed the program",
                    LET y == Obs(Ev.a) IN y.an = Sorted(ActiveNodes(O.g, O.x))
                        /\ (IF "gr" \in DOMAIN y THEN TRUE ELSE SameVals(EvalObj(O, O.x, y.ev, y.w, y.b, JSeq(y.p)), y.o)))
           ELSE TRUE
EvalOp == LET bad == Len(Ev.p) # NIn(O)
          IN /\ Threw(EvalProp(O), bad) /\ Same /\ UNCHANGED tab
             /\ IF Len(O.ev) > 0 THEN Threw("C14", bad) ELSE TRUE
             /\ IF bad THEN TRUE
                ELSE IF Ev.op = "EvalS" THEN Chk("C09", "printed formula", TextOk(O, O.x, O.ev, O.w, O.b, Ev.p, Ev.res))
                ELSE IF Overridden(O) THEN TRUE ELSE Chk(EvalProp(O), "value", SameVals(Eval(O, JSeq(Ev.p)), Ev.res))
Kinds == {"MSE", "CE"}
DataOk == /\ Len(Ev.pts) = Len(Ev.ys) /\ Len(Ev.pts) > 0 /\ Ev.ls \in Kinds
          /\ \A i \in 1..Len(Ev.pts) : Len(Ev.pts[i]) = NIn(O)
          /\ \A i \in 1..Len(Ev.ys) : Len(Ev.ys[i]) = O.g.m
ParOk(k, par) == par = 0 \/ k % par = 0
LossOp == LET bad == ~DataOk \/ ~ParOk(Len(Ev.pts), Ev.par)
              want == LossOf(O, O.w, O.b, Ev.pts, Ev.ys, Ev.ls)
          IN /\ Threw("C12", bad) /\ Same /\ UNCHANGED tab
             /\ IF bad \/ Overridden(O) THEN TRUE ELSE
                  /\ Chk("C12", << "loss", DShow(want.v), DShow(Ev.res) >>, DAgrees(want.v, Ev.res))
                  /\ IF O.pc.id # "none" /\ O.kind = "plain" THEN Chk("C13", << "corrected loss", DShow(want.v), DShow(Ev.res) >>, DAgrees(want.v, Ev.res)) ELSE TRUE
                  /\ IF Len(O.ev) > 0 THEN Chk("C14", << "loss", DShow(want.v), DShow(Ev.res) >>, DAgrees(want.v, Ev.res)) ELSE TRUE
GetAr == LET bad == ~IsNode(O.g, Ev.node)
         IN Threw("C06", bad) /\ Same /\ UNCHANGED tab /\ (IF bad THEN TRUE ELSE Chk("C06", "arity", Ev.res = Arity(O.g, Ev.node)))
IsAct == /\ Same /\ UNCHANGED tab /\ Threw("C07", FALSE)
         /\ Chk("C07", "membership of nodes", Ev.nodes = Sorted(ActiveNodes(O.g, O.x)))
         /\ Chk("C07", "membership of genes", Ev.genes = Sorted(ActiveGenes(O.g, O.x)))
\* weights and biases
WAddrOk == IsNode(O.g, Ev.node) /\ Ev.in < Arity(O.g, Ev.node)
SetW == Upd(WProp(O), ~WAddrOk, [O EXCEPT !.w = [O.w EXCEPT ![IF WAddrOk THEN WIdx(O.g, Ev.node, Ev.in) + 1 ELSE 1] = Ev.v]])
GetW == Threw(WProp(O), ~WAddrOk) /\ Same /\ UNCHANGED tab
        /\ (IF ~WAddrOk THEN TRUE ELSE Chk(WProp(O), "weight read", Ev.res = O.w[WIdx(O.g, Ev.node, Ev.in) + 1]))
SetWs == Upd(WProp(O), Len(Ev.w) # Len(O.w), [O EXCEPT !.w = Ev.w])
SetBs == Upd("C16", Len(Ev.w) # Len(O.b), [O EXCEPT !.b = Ev.w])
SetWi == Upd("C16", Ev.i >= Len(O.w), [O EXCEPT !.w = [O.w EXCEPT ![IF Ev.i < Len(O.w) THEN Ev.i + 1 ELSE 1] = Ev.v]])
SetB == Upd("C16", Ev.i >= Len(O.b), [O EXCEPT !.b = [O.b EXCEPT ![IF Ev.i < Len(O.b) THEN Ev.i + 1 ELSE 1] = Ev.v]])
GetWi == Threw("C16", Ev.i >= Len(O.w)) /\ Same /\ UNCHANGED tab /\ (IF Ev.i >= Len(O.w) THEN TRUE ELSE Chk("C16", "weight read", Ev.res = O.w[Ev.i + 1]))
GetB == Threw("C16", Ev.i >= Len(O.b)) /\ Same /\ UNCHANGED tab /\ (IF Ev.i >= Len(O.b) THEN TRUE ELSE Chk("C16", "bias read", Ev.res = O.b[Ev.i + 1]))
RandWB == LET y == IF Ev.op = "RandW" THEN Obs(Ev.a).w ELSE Obs(Ev.a).b
              old == IF Ev.op = "RandW" THEN O.w ELSE O.b
              key == << "Rand", Len(old), Ev.mean, Ev.std, Ev.seed >>
          IN /\ Threw("C16", FALSE)
             /\ Chk("C16", << "randomised" >>, Len(y) = Len(old) /\
                    \A i \in 1..Len(y) : DLe(DAbs(DSub(y[i], Ev.mean)), DMul(DInt(8), Ev.std)))
             /\ Chk("C16", << "randomised alike" >>, Len(y) > 1 => \E i \in 2..Len(y) : y[i] # y[1])
             /\ Recall(key, y)
             /\ Remember(key, [v |-> y, t |-> << >>])
             /\ Set1(Ev.a, IF Ev.op = "RandW" THEN [O EXCEPT !.w = y] ELSE [O EXCEPT !.b = y])
OutF == LET ids == { i \in 1..Len(O.g.f) : O.g.f[i] = Ev.name }
            bad == ids = {} \/ \E k \in Outs(O.g, O.x) : ~IsNode(O.g, k)
            id == (CHOOSE i \in ids : \A j \in ids : i <= j) - 1
        IN Upd("C16", bad, [O EXCEPT !.x = [i \in 1..Len(O.x) |->
                IF \E k \in Outs(O.g, O.x) : i = Gi(O.g, k) + 1 THEN id ELSE O.x[i]]])
NAct == LET act == ActiveNodes(O.g, O.x) \ (0..(O.g.n - 1))
            cnt(k) == IF Ev.unique THEN Cardinality({ Conn(O.g, O.x, k, j) : j \in 1..Arity(O.g, k) }) ELSE Arity(O.g, k)
        IN Threw("C16", FALSE) /\ Same /\ UNCHANGED tab
           /\ Chk("C16", "number of active weights", Ev.res = FoldLeft(LAMBDA s, k : s + cnt(k), 0, Sorted(act)))
----------------------------------------------------------------------------------
(* Backpropagation and gradient descent.                                             *)
\* derivative of the mean loss with respect to weight i (isb: bias i), one variable at a time
Deriv(w, b, isb, i, pts, ys, ls) ==
    LET wj == Now([k \in 1..Len(w) |-> IF ~isb /\ k = i THEN JVar1(w[k], 1, 1) ELSE JNum(w[k])])
        bj == Now([k \in 1..Len(b) |-> IF isb /\ k = i THEN JVar1(b[k], 1, 1) ELSE JNum(b[k])])
        r == JMean([q \in 1..Len(pts) |-> Loss1(ls, EvalCgp(O.g, O.x, wj, bj, JSeq(pts[q])), JSeq(ys[q]))])
    IN IF Len(r.g) = 0 THEN Zero ELSE r.g[1]
\* parameters the outputs depend on
ActW == UNION { { WIdx(O.g, k, j) + 1 : j \in 0..(Arity(O.g, k) - 1) } : k \in { q \in ActiveNodes(O.g, O.x) : q >= O.g.n } }
ActB == { BIdx(O.g, k) + 1 : k \in { q \in ActiveNodes(O.g, O.x) : q >= O.g.n } }
GradW(w, b, pts, ys, ls) == Now([i \in 1..Len(w) |-> IF i \in ActW THEN Deriv(w, b, FALSE, i, pts, ys, ls) ELSE Zero])
GradB(w, b, pts, ys, ls) == Now([i \in 1..Len(b) |-> IF i \in ActB THEN Deriv(w, b, TRUE, i, pts, ys, ls) ELSE Zero])
\* no active node sits where its activation is not differentiable
Smooth(w, b, p) ==
    LET vals == AllVals(O.g, O.x, JSeq(w), JSeq(b), JSeq(p))
    IN \A k \in ActiveNodes(O.g, O.x) :
          (k >= O.g.n /\ O.g.f[FGene(O.g, O.x, k) + 1] \in {"ReLu", "abs", "step"}) =>
             LET s == JSum(NodeArgs(O.g, O.x, JSeq(w), JSeq(b), vals, k)).v IN ~DEq(DExactV(s), Zero)
DLossOp ==
    LET bad == ~DataOk \/ ~ParOk(Len(Ev.pts), Ev.par)
        want == LossOf(O, O.w, O.b, Ev.pts, Ev.ys, Ev.ls)
    IN /\ Threw("C17", bad) /\ Same /\ UNCHANGED tab
       /\ IF bad \/ Prop # "C17" THEN TRUE ELSE
            LET acc == "v0" \in DOMAIN Ev IN        \* the single-point form adds to what it is given
            /\ Chk("C17", << "loss", DShow(want.v), DShow(Ev.res) >>, DAgrees(IF acc THEN DAdd(Ev.v0, want.v) ELSE want.v, Ev.res))
            /\ Chk("C17", "sizes", Len(Ev.gw) = Len(O.w) /\ Len(Ev.gb) = Len(O.b))
            /\ IF \E i \in 1..Len(Ev.pts) : ~Smooth(O.w, O.b, Ev.pts[i]) THEN TRUE ELSE
                 LET gw0 == GradW(O.w, O.b, Ev.pts, Ev.ys, Ev.ls) gb0 == GradB(O.w, O.b, Ev.pts, Ev.ys, Ev.ls)
                     gw == IF acc THEN [i \in 1..Len(gw0) |-> DAdd(Ev.gw0[i], gw0[i])] ELSE gw0
                     gb == IF acc THEN [i \in 1..Len(gb0) |-> DAdd(Ev.gb0[i], gb0[i])] ELSE gb0
                 IN
                 /\ Chk("C17", << "weights", [i \in 1..Len(gw) |-> << DShow(gw[i]), DShow(Ev.gw[i]) >>] >>, \A i \in 1..Len(gw) : DAgrees(gw[i], Ev.gw[i]))
                 /\ Chk("C17", << "biases", [i \in 1..Len(gb) |-> << DShow(gb[i]), DShow(Ev.gb[i]) >>] >>, \A i \in 1..Len(gb) : DAgrees(gb[i], Ev.gb[i]))
\* one epoch over points q (in this order): final weights and biases, sum of batch losses, number of batches
RECURSIVE Epoch(_, _, _, _, _, _, _, _)
Epoch(w0, b0, pts, ys, from, bs, lr, ls) ==
    IF from > Len(pts) THEN [w |-> Now(w0), b |-> Now(b0), sum |-> Zero, n |-> 0, smooth |-> TRUE] ELSE
    LET w == Now(w0)
        b == Now(b0)
        to == IF from + bs - 1 > Len(pts) THEN Len(pts) ELSE from + bs - 1
        ps == SubSeq(pts, from, to)
        qs == SubSeq(ys, from, to)
        e == LossOf(O, w, b, ps, qs, ls).v
        gw == GradW(w, b, ps, qs, ls)
        gb == GradB(w, b, ps, qs, ls)
        sm == \A i \in 1..Len(ps) : Smooth(w, b, ps[i])
        rest == Epoch([i \in 1..Len(w) |-> DSub(w[i], DMul(lr, gw[i]))], [i \in 1..Len(b) |-> DSub(b[i], DMul(lr, gb[i]))],
                      pts, ys, to + 1, bs, lr, ls)
    IN [rest EXCEPT !.sum = DAdd(e, rest.sum), !.n = rest.n + 1, !.smooth = sm /\ rest.smooth]
Pairs(p, y) == [i \in 1..Len(p) |-> << p[i], y[i] >>]
SamePairs(p, q) == Len(p) = Len(q) /\ \A e \in { p[i] : i \in 1..Len(p) } :
    Cardinality({ i \in 1..Len(p) : p[i] = e }) = Cardinality({ i \in 1..Len(q) : q[i] = e })
SgdOp ==
    LET k == Len(Ev.pts)
        bad == \/ ~DataOk \/ ~DLt(Zero, Ev.lr) \/ Ev.bs = 0
               \/ Ev.par > 0 /\ ((Ev.bs <= k /\ Ev.bs % Ev.par # 0) \/ (k % Ev.bs) % Ev.par # 0)
        r == Obs(Ev.a)
        perm == IF Ev.sh THEN SamePairs(Pairs(Ev.pts, Ev.ys), Pairs(Ev.pts2, Ev.ys2)) ELSE Ev.pts2 = Ev.pts /\ Ev.ys2 = Ev.ys
        ep == Epoch(O.w, O.b, Ev.pts2, Ev.ys2, 1, Ev.bs, Ev.lr, Ev.ls)
    IN /\ Threw("C18", bad) /\ UNCHANGED tab
       /\ IF bad
          THEN Same /\ Chk("C18", "data disturbed by a rejected call", Ev.pts2 = Ev.pts /\ Ev.ys2 = Ev.ys)
          ELSE /\ Set1(Ev.a, [O EXCEPT !.w = r.w, !.b = r.b])
               /\ Chk("C18", "points and labels are not a pairing of those given", perm)
               /\ IF Prop # "C18" THEN TRUE ELSE
                  Chk("C18", << "epoch", DShow(ep.sum), ep.n, DShow(Ev.res), [i \in 1..Len(r.w) |-> << DShow(ep.w[i]), DShow(r.w[i]) >>],
                               [i \in 1..Len(r.b) |-> << DShow(ep.b[i]), DShow(r.b[i]) >>] >>,
                      ep.smooth =>
                      /\ DAgrees(DDiv(ep.sum, DInt(ep.n)), Ev.res)
                      /\ \A i \in 1..Len(r.w) : IF i \in ActW THEN DAgrees(ep.w[i], r.w[i]) ELSE r.w[i] = O.w[i]
                      /\ \A i \in 1..Len(r.b) : IF i \in ActB THEN DAgrees(ep.b[i], r.b[i]) ELSE r.b[i] = O.b[i])
----------------------------------------------------------------------------------
OpStep ==
    CASE Ev.op = "New" -> New
      [] Ev.op = "Copy" -> Copy
      [] Ev.op = "Move" -> Move
      [] Ev.op = "Destroy" -> Destroy
      [] Ev.op = "Set" -> SetX
      [] Ev.op = "SetF" -> SetF
      [] Ev.op = "SetEph" -> SetEph
      [] Ev.op = "SetSym" -> SetSym
      [] Ev.op = "Seed" -> SeedOp
      [] Ev.op = "SetPC" -> SetPC
      [] Ev.op = "UnsetPC" -> UnsetPC
      [] Ev.op = "MutL" -> MutL
      [] Ev.op \in {"MutR", "MutI", "MutA", "MutAF", "MutAC", "MutO"} -> MutN
      [] Ev.op \in {"Eval", "EvalS"} -> EvalOp
      [] Ev.op = "Loss" -> LossOp
      [] Ev.op = "GetAr" -> GetAr
      [] Ev.op = "IsAct" -> IsAct
      [] Ev.op = "SetW" -> SetW
      [] Ev.op = "GetW" -> GetW
      [] Ev.op = "SetWs" -> SetWs
      [] Ev.op = "SetBs" -> SetBs
      [] Ev.op = "SetWi" -> SetWi
      [] Ev.op = "GetWi" -> GetWi
      [] Ev.op = "SetB" -> SetB
      [] Ev.op = "GetB" -> GetB
      [] Ev.op \in {"RandW", "RandB"} -> RandWB
      [] Ev.op = "OutF" -> OutF
      [] Ev.op = "NAct" -> NAct
      [] Ev.op = "DLoss" -> DLossOp
      [] Ev.op = "Sgd" -> SgdOp
TOp == Is("Op") /\ OpStep /\ SeenAll
TReset == Is("Reset") /\ objs' = [a \in Slots |-> Dead] /\ tab' = << >>
\* all outcomes of one mutation, over many trials
TReach == /\ Is("Reach") /\ UNCHANGED << objs, tab >>
          /\ LET g == Geo(Ev.n + Ev.ne, Ev.m, Ev.r, Ev.c, Ev.l, Ev.ar, Ev.f)
                 cls == IF Ev.op = "Mut" THEN {Ev.gene} ELSE ClassOf(g, Ev.op, Ev.x)
                 seen == { << Ev.pairs[i][1], Ev.pairs[i][2] >> : i \in 1..Len(Ev.pairs) }
             IN /\ Chk("C10", << "outcomes of a mutation", "missing", Reachable(g, Ev.x, cls) \ seen, "unexpected", seen \ Reachable(g, Ev.x, cls) >>,
                       seen = Reachable(g, Ev.x, cls))
                /\ Chk("C10", "one mutation changed several genes", Ev.worst <= 1)
TInit == l = 1 /\ objs = [a \in Slots |-> Dead] /\ tab = << >>
TNext == TOp \/ TReset \/ TReach
TSpec == TInit /\ [][TNext]_vars
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
===================================================================================
