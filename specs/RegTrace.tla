--------------------------------- MODULE RegTrace ---------------------------------
(* Histories of up to three real regression problems against what they compute       *)
(* (C19), their derivatives (C20), their models (C21) and their thread-safety level  *)
(* (C03).  A problem is a record: data, geometry, correction, the program inside     *)
(* (cx, cev), and the vectors whose loss may be remembered from derivatives (memo).  *)
EXTENDS CgpObj, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
Prop == IOEnv.PROP
VARIABLES l, ps
vars == << l, ps >>
Ev == Trace[l]
Chk(p, why, c) == IF p # Prop THEN TRUE ELSE IF c THEN TRUE ELSE PrintT(<< "REJECT", l, why, Ev >>) /\ FALSE
Is(e) == l <= Len(Trace) /\ Ev.event = e /\ l' = l + 1
Slots == 1..3
Dead == [s |-> "no"]
O == ps[Ev.a]

\* a decision vector: the constants, then the genes, as doubles
NE(o) == o.ne
NG(o) == Len(o.g.lb)
DNat == [k \in 0..60 |-> DInt(k)]
Gene(d) == CHOOSE k \in 0..60 : DNat[k] = d
IsGene(o, i, d) == \E k \in o.g.lb[i]..o.g.ub[i] : DNat[k] = d
VecOk(o, x) == Len(x) = NE(o) + NG(o) /\ \A i \in 1..NG(o) : IsGene(o, i, x[NE(o) + i])
XOf(o, x) == [i \in 1..NG(o) |-> Gene(x[NE(o) + i])]
EvOf(o, x) == SubSeq(x, 1, NE(o))

\* the program of vector x at point p, the constants being variables 1..k of the jets (k = 0: numbers)
Out(o, gf, x, p, k) ==
    LET c == Now([i \in 1..NE(o) |-> IF k = 0 THEN JNum(x[i]) ELSE JVar(x[i], i, k)])
        raw(q) == EvalCgp(gf, XOf(o, x), << >>, << >>, q \o c)
    IN Corr(o.pc, raw, JSeq(p))
Quot(o) == [o.g EXCEPT !.f = [i \in 1..Len(o.g.f) |-> IF o.g.f[i] = "pdiv" THEN "div" ELSE o.g.f[i]]]
LossAt(o, gf, x, k) == JMean([i \in 1..Len(o.pts) |-> Loss1(o.ls, Out(o, gf, x, o.pts[i], k), JSeq(o.ys[i]))])
\* where the program is not differentiable, Taylor numbers say nothing
Kinked == {"ReLu", "ELU", "abs", "step"}
Smooth1(o, x, q) ==
    LET c == Now([i \in 1..NE(o) |-> JVar(x[i], i, NE(o))])
        gx == XOf(o, x)
        gf == Quot(o)
        vals == AllVals(gf, gx, << >>, << >>, q \o c)
    IN \A k \in ActiveNodes(gf, gx) :
         /\ JReg(vals[k + 1])
         /\ k >= gf.n =>
              LET f == gf.f[FGene(gf, gx, k) + 1]
                  s == IF f = "psqrt" THEN vals[Conn(gf, gx, k, 1) + 1].v
                       ELSE JSum([j \in 1..Arity(gf, k) |-> vals[Conn(gf, gx, k, j) + 1]]).v
              IN f \in Kinked \cup {"psqrt"} => ~DLe(DAbs(DExactV(s)), DStr("1e-9"))
Smooth(o, x) ==
    /\ \A i \in 1..Len(o.pts) :
          /\ Smooth1(o, x, JSeq(o.pts[i]))
          /\ IF o.pc.id = "twice" THEN Smooth1(o, x, [j \in 1..Len(o.pts[i]) |-> JMul(JNum(o.pts[i][j]), JInt(2))]) ELSE TRUE
          \* the cross entropy needs the highest output to be one output
          /\ IF o.ls # "CE" THEN TRUE ELSE
             LET r == Out(o, Quot(o), x, o.pts[i], 0) IN \A j \in 1..Len(r) : DIsFinite(r[j].v)
Complexity(o, x) == Cardinality(ActiveGenes(o.g, XOf(o, x)))
FitOk(o, x, f) == /\ Len(f) = (IF o.mo THEN 2 ELSE 1)
                  /\ DAgrees(LossAt(o, o.g, x, 0).v, f[1])
                  /\ o.mo => f[2] = DInt(Complexity(o, x))
\* after derivatives at x without regular points the loss may have come from Taylor numbers
Memo(o, x) == \E i \in 1..Len(o.memo) : o.memo[i] = x
----------------------------------------------------------------------------------
\* every live problem: the program inside
SeenAll == \A a \in Slots :
    /\ Chk("C21", << "alive", a >>, (Ev.ps[a].s = "ok") = (ps'[a].s = "ok"))
    /\ IF Ev.ps[a].s = "ok" /\ ps'[a].s = "ok"
       THEN Chk(IF a = Ev.a THEN "C21" ELSE "C19", << "program inside", a, ps'[a].cx, ps'[a].cev >>,
                Ev.ps[a].x = ps'[a].cx /\ Ev.ps[a].ev = ps'[a].cev)
       ELSE TRUE
Threw(p, t) == Chk(p, << "raised, or did not raise", t >>, Ev.threw = t)
Same == UNCHANGED ps
Set1(o) == ps' = [ps EXCEPT ![Ev.a] = o]
At(o, x) == [o EXCEPT !.cx = XOf(o, x), !.cev = EvOf(o, x)]
SameDims(q) == \A i \in 1..Len(q) : Len(q[i]) = Len(q[1])
Level(lv) == IF Len(lv) = 0 THEN 1 ELSE
    LET s == { lv[i][1] : i \in 1..Len(lv) } \cup { lv[i][2] : i \in 1..Len(lv) } IN CHOOSE v \in s : \A w \in s : v <= w
New ==
    LET np == Len(Ev.pts)
        ok == /\ np > 0 /\ Len(Ev.ys) = np /\ SameDims(Ev.pts) /\ SameDims(Ev.ys)
              /\ Len(Ev.ys[1]) > 0 /\ Len(Ev.pts[1]) + Ev.ne > 0
              /\ Ev.r > 0 /\ Ev.c > 0 /\ Ev.l > 0 /\ Ev.ar >= 2 /\ Len(Ev.f) > 0
              /\ Ev.ls \in {"MSE", "CE"}
    IN /\ Threw("C19", ~ok)
       /\ IF ~ok THEN Same
          ELSE LET g == Geo(Len(Ev.pts[1]) + Ev.ne, Len(Ev.ys[1]), Ev.r, Ev.c, Ev.l, [i \in 1..Ev.c |-> Ev.ar], Ev.f)
                   r == Ev.ps[Ev.a]
               IN /\ Chk("C21", "program of a new problem", Valid(g, r.x) /\ Len(r.ev) = Ev.ne)
                  /\ Set1([s |-> "ok", g |-> g, ne |-> Ev.ne, pts |-> Ev.pts, ys |-> Ev.ys, ls |-> Ev.ls, mo |-> Ev.mo, par |-> Ev.par,
                           pc |-> NoPc, cx |-> r.x, cev |-> r.ev, lv |-> Level(Ev.lv), memo |-> << >>])
Copy == Threw("C19", FALSE) /\ Set1(ps[Ev.b])
Move == Threw("C19", FALSE) /\ ps' = [ps EXCEPT ![Ev.a] = ps[Ev.b], ![Ev.b] = Dead]
Destroy == Set1(Dead)
SetPC == Threw("C19", FALSE) /\ Set1([O EXCEPT !.pc = Ev.pc, !.memo = << >>])
UnsetPC == Threw("C19", FALSE) /\ Set1([O EXCEPT !.pc = NoPc, !.memo = << >>])
ParOk(o) == o.par = 0 \/ Len(o.pts) % o.par = 0
Fit ==
    IF ~VecOk(O, Ev.x) THEN Threw("C19", TRUE) /\ Same
    \* a number of batches that does not divide the data is not supported
    ELSE IF ~ParOk(O) /\ Ev.threw THEN Set1(At(O, Ev.x))
    ELSE /\ Threw("C19", FALSE)
         /\ Set1(At(O, Ev.x))
         /\ Chk("C19", << "fitness", DShow(LossAt(O, O.g, Ev.x, 0).v), [i \in 1..Len(Ev.res) |-> DShow(Ev.res[i])] >>,
                Memo(O, Ev.x) \/ FitOk(O, Ev.x, Ev.res))
\* the derivative evaluations may or may not leave the vector in the program inside
AfterDeriv(x) ==
    LET r == Ev.ps[Ev.a]
        o1 == [O EXCEPT !.memo = IF Prop # "C19" \/ (\E i \in 1..Len(O.g.f) : O.g.f[i] = "pdiv") \/ Smooth(O, x) THEN @ ELSE
                                 IF Len(@) > 3 THEN << x >> \o SubSeq(@, 1, 3) ELSE << x >> \o @]
    IN Set1(IF r.s = "ok" /\ r.x = XOf(O, x) /\ r.ev = EvOf(O, x) THEN At(o1, x) ELSE o1)
Grad ==
    IF ~VecOk(O, Ev.x) THEN Threw("C20", TRUE) /\ Same
    ELSE /\ Threw("C20", FALSE)
         /\ AfterDeriv(Ev.x)
         /\ IF Prop # "C20" THEN TRUE ELSE
            /\ Chk("C20", "size of the gradient", Len(Ev.res) = NE(O))
            /\ IF NE(O) = 0 \/ ~Smooth(O, Ev.x) THEN TRUE ELSE
               LET w == LossAt(O, Quot(O), Ev.x, NE(O)) IN
               Chk("C20", << "gradient", [i \in 1..NE(O) |-> << DShow(IF Len(w.g) = 0 THEN Zero ELSE w.g[i]), DShow(Ev.res[i]) >>] >>,
                   \A i \in 1..NE(O) : DAgrees(IF Len(w.g) = 0 THEN Zero ELSE w.g[i], Ev.res[i]))
\* lower triangle, row by row
Tri(o) == FoldLeft(LAMBDA q, i : q \o [j \in 1..i |-> << i, j >>], << >>, [i \in 1..NE(o) |-> i])
Hess ==
    IF ~VecOk(O, Ev.x) THEN Threw("C20", TRUE) /\ Same
    ELSE /\ Threw("C20", FALSE)
         /\ AfterDeriv(Ev.x)
         /\ IF Prop # "C20" THEN TRUE ELSE
            /\ Chk("C20", "sizes of the Hessians", /\ Len(Ev.res) = (IF O.mo THEN 2 ELSE 1)
                                                   /\ Len(Ev.res[1]) = Len(Tri(O))
                                                   /\ O.mo => Ev.res[2] = << Zero >>)
            /\ IF NE(O) = 0 \/ ~Smooth(O, Ev.x) THEN TRUE ELSE
               LET w == LossAt(O, Quot(O), Ev.x, NE(O))
                   t == Tri(O)
                   h(i) == IF Len(w.h) = 0 THEN Zero ELSE w.h[t[i][1]][t[i][2]]
               IN Chk("C20", << "Hessian", [i \in 1..Len(t) |-> << DShow(h(i)), DShow(Ev.res[1][i]) >>] >>,
                      \A i \in 1..Len(t) : DAgrees(h(i), Ev.res[1][i]))
Meta ==
    /\ Threw("C19", FALSE) /\ Same
    /\ Chk("C19", "number of objectives", Ev.nobj = IF O.mo THEN 2 ELSE 1)
    /\ Chk("C19", "integer part", Ev.nix = NG(O))
    /\ Chk("C19", << "bounds", O.g.lb, O.g.ub >>,
           /\ Ev.lb = [i \in 1..NE(O) |-> DInt(-10)] \o [i \in 1..NG(O) |-> DInt(O.g.lb[i])]
           /\ Ev.ub = [i \in 1..NE(O) |-> DInt(10)] \o [i \in 1..NG(O) |-> DInt(O.g.ub[i])])
    /\ Chk("C20", "gradient sparsity", Ev.gs = [i \in 1..NE(O) |-> << 0, i - 1 >>])
    /\ Chk("C20", "Hessian sparsity", Ev.hs = << [i \in 1..Len(Tri(O)) |-> << Tri(O)[i][1] - 1, Tri(O)[i][2] - 1 >>] >>
                                              \o (IF O.mo THEN << << << 0, 0 >> >> >> ELSE << >>))
    /\ Chk("C03", << "thread-safety level", O.lv >>, Ev.ts = O.lv)
    /\ Chk("C19", "description", Ev.info)
SetCgp == IF ~VecOk(O, Ev.x) THEN Threw("C21", TRUE) /\ Same
          ELSE Threw("C21", FALSE) /\ Set1(At(O, Ev.x))
RowsOk(q) == \A i \in 1..Len(q) : Len(q[i]) = O.g.n - NE(O)
Predict == IF ~VecOk(O, Ev.x) THEN Threw("C21", TRUE) /\ Same
           ELSE /\ Threw("C21", ~RowsOk(Ev.q))
                /\ Set1(At(O, Ev.x))
                /\ IF ~RowsOk(Ev.q) THEN TRUE ELSE
                   /\ Chk("C21", "number of predictions", Len(Ev.res) = Len(Ev.q))
                   /\ \A i \in 1..Len(Ev.q) : LET w == Out(O, O.g, Ev.x, Ev.q[i], 0) IN
                        Chk("C21", << "prediction", [j \in 1..Len(w) |-> << DShow(w[j].v), DShow(Ev.res[i][j]) >>] >>, SameVals(w, Ev.res[i]))
\* printed models: texts cut at the list's separators; corrections are not part of them
Pretty == IF ~VecOk(O, Ev.x) THEN Threw("C21", TRUE) /\ Same
          ELSE /\ Threw("C21", FALSE)
               /\ Set1(At(O, Ev.x))
               /\ Chk("C21", << "printed model", XOf(O, Ev.x) >>,
                      TextOk([kind |-> "plain", g |-> O.g, es |-> [i \in 1..NE(O) |-> "c" \o ToString(i)]],
                             XOf(O, Ev.x), EvOf(O, Ev.x), << >>, << >>, Ev.p, Ev.res))
OpStep ==
    CASE Ev.op = "New" -> New
      [] Ev.op = "Copy" -> Copy
      [] Ev.op = "Move" -> Move
      [] Ev.op = "Destroy" -> Destroy
      [] Ev.op = "SetPC" -> SetPC
      [] Ev.op = "UnsetPC" -> UnsetPC
      [] Ev.op = "Fit" -> Fit
      [] Ev.op = "Grad" -> Grad
      [] Ev.op = "Hess" -> Hess
      [] Ev.op = "Meta" -> Meta
      [] Ev.op = "SetCgp" -> SetCgp
      [] Ev.op = "Predict" -> Predict
      [] Ev.op = "Pretty" -> Pretty
TOp == Is("Op") /\ OpStep /\ SeenAll
TReset == Is("Reset") /\ ps' = [a \in Slots |-> Dead]
TInit == l = 1 /\ ps = [a \in Slots |-> Dead]
TNext == TOp \/ TReset
TSpec == TInit /\ [][TNext]_vars
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
===================================================================================
