------------------------------- MODULE EvolveTrace -------------------------------
(* Runs of the real algorithms on small populations, every evaluation of the problem  *)
(* recorded, against Evolve.tla: (1 + lambda) and memetic strategies (C22), their     *)
(* multi-objective versions (C23), gradient descent (C24), and what all of them       *)
(* promise about reproducibility, stopping, logs and rejection (C25).                 *)
(*                                                                                  *)
(* Evo: the start; F: a fitness evaluation; D: a derivative evaluation with gradient  *)
(* and Hessian; End: the result.                                                      *)
EXTENDS CgpObj, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
Prop == IOEnv.PROP
VARIABLES l, s
vars == << l, s >>
Ev == Trace[l]
Chk(p, why, c) == IF p # Prop THEN TRUE ELSE IF c THEN TRUE ELSE PrintT(<< "REJECT", l, why, Ev >>) /\ FALSE
Is(e) == l <= Len(Trace) /\ Ev.event = e /\ l' = l + 1
Less(a, b) == IF DIsNaN(a) THEN FALSE ELSE IF DIsNaN(b) THEN TRUE ELSE DLt(a, b)
V == INSTANCE Evolve WITH LessF <- Less
Idle == [ph |-> "idle"]
\* Which individual pagmo names the best or the worst of a population holding NaN losses is
\* pagmo's (a scan with <): with NaNs its choice is allowed besides the NaN-last one.
LOCAL Scan(pop, lt(_, _)) == FoldLeft(LAMBDA b, i : IF lt(pop[i].f[1], pop[b].f[1]) THEN i ELSE b, 1, [i \in 1..Len(pop) |-> i])
LOCAL RawLt(a, b) == IF DIsNaN(a) \/ DIsNaN(b) THEN FALSE ELSE DLt(a, b)
LOCAL RawGt(a, b) == RawLt(b, a)
LOCAL AnyNaN(pop) == \E i \in 1..Len(pop) : DIsNaN(pop[i].f[1])
BestOf(pop) == IF AnyNaN(pop) THEN V!BestIdx(pop) \cup {Scan(pop, RawLt)} ELSE V!BestIdx(pop)
WorstOf(pop) == IF AnyNaN(pop) THEN V!WorstIdx(pop) \cup {Scan(pop, RawGt)} ELSE V!WorstIdx(pop)
C == Trace[s.e]
PropOf(a) == CASE a \in {"es", "mes"} -> "C22" [] a \in {"moes", "momes"} -> "C23" [] a = "gd" -> "C24"
P == PropOf(C.algo)
NP == Len(C.xs)
NE == C.ne
MO == C.algo \in {"moes", "momes"}

DNat == [k \in 0..60 |-> DInt(k)]
GenesOk(g, ne, x) == Len(x) = ne + Len(g.lb) /\ \A i \in 1..Len(g.lb) : \E k \in g.lb[i]..g.ub[i] : DNat[k] = x[ne + i]
XOf(g, ne, x) == [i \in 1..Len(g.lb) |-> CHOOSE k \in 0..60 : DNat[k] = x[ne + i]]
EvOf(x) == SubSeq(x, 1, NE)
Inds(xs, fs) == [i \in 1..Len(xs) |-> [x |-> xs[i], f |-> fs[i]]]

\* y is a mutant of x as to the genes: lo to C.mut draws
Mutant(x, y, lo) ==
    GenesOk(s.g, NE, y) /\ \E N \in lo..C.mut : RRandom(s.g, XOf(s.g, NE, x), XOf(s.g, NE, y), N)
\* constants: perturbed, or those of the parent
Perturbed(x, y) ==
    IF C.learn THEN \A i \in 1..NE : y[i] # x[i] /\ DLe(DAbs(DSub(y[i], x[i])), DInt(120)) ELSE EvOf(y) = EvOf(x)
SameGenes(x, y) == Len(x) = Len(y) /\ SubSeq(x, NE + 1, Len(x)) = SubSeq(y, NE + 1, Len(y))

----------------------------------------------------------------------------------
(* Life-long learning: one Newton step on the constants the loss depends on; the      *)
(* others may be drawn anew.                                                          *)
Hx(h, i, j) == IF i >= j THEN h[(i * (i - 1)) \div 2 + j] ELSE h[(j * (j - 1)) \div 2 + i]
LOCAL SumQ(q) == FoldLeft(LAMBDA a, v : DExactV(DAdd(a, v)), Zero, q)
X2(a, b) == DExactV(DMul(a, b))
Step1(c, g, h, y) ==
    IF ~DEq(h, Zero) /\ DIsFinite(h) /\ DIsFinite(g) THEN DAgrees(DSub(c, DDiv(g, h)), y) ELSE y = c
NewtonK(x, g, h, y, q) ==
    LET k == Len(q)
        I == [i \in 1..k |-> i]
        A(i, j) == Hx(h, q[i], q[j])
        d(j) == DExactV(DSub(x[q[j]], y[q[j]]))
        row(i) == SumQ([j \in 1..k |-> DAbs(A(i, j))])
        det2(a, b, c, e) == DExactV(DSub(X2(a, e), X2(b, c)))
        m1 == A(1, 1)
        m2 == det2(A(1, 1), A(1, 2), A(2, 1), A(2, 2))
        m3 == IF k < 3 THEN One ELSE
              SumQ(<< X2(A(1, 1), det2(A(2, 2), A(2, 3), A(3, 2), A(3, 3))),
                      DNeg(X2(A(1, 2), det2(A(2, 1), A(2, 3), A(3, 1), A(3, 3)))),
                      X2(A(1, 3), det2(A(2, 1), A(2, 2), A(3, 1), A(3, 2))) >>)
        det == IF k = 2 THEN m2 ELSE m3
        size == FoldLeft(LAMBDA a, i : X2(a, row(i)), One, I)
        fin == \A i, j \in 1..k : DIsFinite(A(i, j))
        tiny == DStr("1e-6")
        well == DLt(X2(tiny, size), DAbs(det)) /\ DIsFinite(size) /\ DLt(DStr("1e-250"), size)
        dg(i) == A(i, i)
        pos == /\ \A i \in 1..k : DLt(Zero, dg(i))
               /\ \A i, j \in 1..k : DLt(X2(tiny, dg(i)), dg(j))
               /\ DLt(X2(tiny, X2(dg(1), dg(2))), m2)
               /\ k = 3 => DLt(X2(tiny, X2(X2(dg(1), dg(2)), dg(3))), m3)
        res(i) == DAbs(DSub(SumQ([j \in 1..k |-> X2(A(i, j), d(j))]), g[q[i]]))
        scale(i) == DAdd(X2(tiny, DAdd(SumQ([j \in 1..k |-> X2(DAbs(A(i, j)), DAbs(d(j)))]), DAbs(g[q[i]]))),
                         X2(DStr("1e-11"), SumQ([j \in 1..k |-> X2(DAbs(A(i, j)), DAdd(DAbs(x[q[j]]), DAbs(y[q[j]])))])))
        newton == \A i \in 1..k : DLe(res(i), scale(i))
        same == \A j \in 1..k : y[q[j]] = x[q[j]]
    IN IF \E j \in 1..k : ~DIsFinite(g[q[j]]) THEN same
       ELSE IF ~fin \/ ~well \/ (\E j \in 1..k : ~DIsFinite(x[q[j]])) THEN TRUE
       ELSE IF pos THEN newton ELSE same \/ newton
Learned(x, g, h, y) ==
    /\ SameGenes(x, y)
    /\ CASE NE = 0 -> TRUE
         [] NE = 1 -> Step1(x[1], g[1], h[1], y[1])
         [] OTHER ->
            LET nz == { j \in 1..NE : ~DEq(g[j], Zero) }
                q == Sorted(nz)
            IN /\ \A j \in (1..NE) \ nz : y[j] = x[j] \/ DLe(DAbs(y[j]), DInt(10))
               /\ CASE Len(q) = 0 -> TRUE
                    [] Len(q) = 1 -> Step1(x[q[1]], g[q[1]], Hx(h, q[1], q[1]), y[q[1]])
                    [] OTHER -> NewtonK(x, g, h, y, q)

----------------------------------------------------------------------------------
\* is a line logged at the start of the generation after k finished ones
LogAt(k) == C.verb > 0 /\ (C.verb = 1 \/ (k + 1) % C.verb = 1)
Line(t, k) == IF C.verb = 0 THEN t
              ELSE [t EXCEPT !.lines = Append(@, [gen |-> k, fe |-> t.fe, ge |-> t.ge, best |-> t.best, pop |-> t.pop, lr |-> t.lr, gn |-> t.gn])]
Maybe(t) == IF LogAt(t.gen) THEN Line(t, t.gen) ELSE t
Loss(ind) == ind.f[1]
\* start and end of generations, single objective
SOAfter(t, b) ==
    LET u == [t EXCEPT !.best = b, !.gen = @ + 1, !.last = t.off, !.off = << >>, !.pend = << >>]
    IN IF Less(Loss(b), C.ftol) \/ u.gen = C.gen THEN Line([u EXCEPT !.done = TRUE], u.gen) ELSE Maybe(u)
\* multi-objective
Nans(pop) == \E i \in 1..Len(pop) : DIsNaN(Loss(pop[i]))
Ideal(pop) == Loss(pop[CHOOSE i \in V!BestIdx(pop) : TRUE])
MOStarts(t) ==
    IF t.gen = C.gen THEN { Line([t EXCEPT !.done = TRUE], t.gen) }
    ELSE LET u == [Maybe(t) EXCEPT !.un = 1..NP]
             stop == [u EXCEPT !.done = TRUE, !.early = TRUE]
         IN IF Nans(t.pop) THEN { u, stop } ELSE IF Less(Ideal(t.pop), C.ftol) THEN { stop } ELSE { u }
Union(t) == IF C.algo = "moes" THEN t.pop \o t.off
            ELSE FoldLeft(LAMBDA u, o : V!Insert(u, o, DIsFinite), t.pop, t.off)
MOAfter(t) ==
    LET k == t.gen + 1
        q == Inds(C.pops[k].xs, C.pops[k].fs)
    IN << q, [t EXCEPT !.gen = k, !.off = << >>, !.pend = << >>, !.pop = q] >>
\* gradient descent
GDStart(t) == Maybe(t)

TEvo ==
    /\ Is("Evo")
    /\ LET c == Ev
           g == Geo(Len(c.pts[1]) + c.ne, Len(c.ys[1]), c.r, c.c, c.l, [i \in 1..c.c |-> c.ar], c.f)
           pop == Inds(c.xs, c.fs)
           t(b) == [ph |-> "run", e |-> l, g |-> g, gen |-> 0, best |-> b, off |-> << >>, last |-> << >>, pend |-> << >>, un |-> {},
                    pop |-> pop, fe |-> 0, ge |-> 0, lines |-> << >>, done |-> FALSE, early |-> FALSE,
                    lr |-> c.lr, gn |-> Zero, dir |-> << >>, b0 |-> 0]
           B == BestOf(pop)
           sel == CASE c.algo # "gd" -> B
                    [] c.sel = -1 -> B
                    [] c.sel = -2 -> WorstOf(pop)
                    [] c.sel = -3 -> 1..Len(pop)
                    [] OTHER -> {c.sel + 1}
       IN /\ Chk("C25", "seed, verbosity, name or description", c.get)
          /\ \E i \in sel : s' = [t(pop[i]) EXCEPT !.ph = "start", !.b0 = i]
\* the first generation's start, once s names the run
TStart ==
    /\ s.ph = "start" /\ l' = l
    /\ LET t == [s EXCEPT !.ph = "run"] IN
       IF C.gen = 0 THEN s' = [t EXCEPT !.done = TRUE]
       ELSE IF MO THEN s' \in MOStarts(t)
       ELSE IF C.algo = "gd" /\ ~DIsFinite(Loss(t.best)) THEN s' = [t EXCEPT !.done = TRUE]
       ELSE s' = Maybe(t)

\* a derivative evaluation: which mutant is it of
HasKind(p) == p.x = Ev.x /\ Ev.k \notin p.ks
TD ==
    /\ Is("D") /\ s.ph = "run"
    /\ IF s.done \/ C.algo \in {"es", "moes"} THEN Chk("C25", "derivatives after the end, or never needed", ~s.done) /\ UNCHANGED s
       ELSE IF C.algo = "gd" THEN
            IF Ev.k # "G" THEN UNCHANGED s ELSE
            LET gn == DSqrt(FoldLeft(LAMBDA a, v : DAdd(a, DMul(v, v)), Zero, Ev.g))
                n == DExactV(gn)
                t == [s EXCEPT !.ge = @ + 1, !.gn = n, !.dir = Ev.g]
            IN /\ Chk("C24", << "gradient taken elsewhere", EvOf(s.best.x) >>, Ev.x = s.best.x)
               /\ Chk("C24", "gradient taken twice", s.dir = << >>)
               /\ s' = IF DLt(n, DStr("1e-13")) \/ ~DIsFinite(n) THEN Line([t EXCEPT !.done = TRUE], t.gen + 1) ELSE t
       ELSE IF \E i \in 1..Len(s.pend) : HasKind(s.pend[i]) THEN
            LET i == CHOOSE i \in 1..Len(s.pend) : HasKind(s.pend[i]) IN s' = [s EXCEPT !.pend[i].ks = @ \cup {Ev.k}]
       ELSE LET new == [x |-> Ev.x, g |-> Ev.g, h |-> Ev.h, ks |-> {Ev.k}]
                add == [s EXCEPT !.pend = Append(@, new)]
            IN IF C.algo = "mes" THEN
                  /\ Chk("C22", << "not a mutant of the best", XOf(s.g, NE, s.best.x), EvOf(s.best.x) >>,
                         Mutant(s.best.x, Ev.x, 1) /\ EvOf(Ev.x) = EvOf(s.best.x))
                  /\ s' = add
               ELSE LET par == { i \in s.un : Mutant(s.pop[i].x, Ev.x, 0) /\ EvOf(Ev.x) = EvOf(s.pop[i].x) }
                    IN /\ Chk("C23", << "not a mutant of an individual without offspring yet", s.un >>, par # {})
                       /\ IF par = {} THEN s' = add ELSE \E i \in par : s' = [add EXCEPT !.un = @ \ {i}]

\* an offspring has its fitness
Count(t, o) == [t EXCEPT !.off = Append(@, o), !.fe = @ + 1]
Gen(t) == IF Len(t.off) < NP THEN s' = t
          ELSE IF MO THEN LET a == MOAfter(t) IN
               /\ Chk("C23", << "selection", Union(t), a[1] >>, V!SelectionOf(Union(t), a[1], NP))
               /\ s' \in MOStarts(a[2])
          ELSE \E b \in (IF C.algo = "es" THEN V!EsBest(t.best, t.off) ELSE V!MesBest(t.best, t.off)) : s' = SOAfter(t, b)
TF ==
    /\ Is("F") /\ s.ph = "run"
    /\ LET o == [x |-> Ev.x, f |-> Ev.f]
           t == Count(s, o)
       IN IF s.done THEN Chk("C25", "evaluation after the last generation", FALSE) /\ UNCHANGED s
          ELSE CASE C.algo = "es" ->
                  /\ Chk("C22", << "not a mutant of the best", EvOf(s.best.x), XOf(s.g, NE, s.best.x) >>, Mutant(s.best.x, Ev.x, 1))
                  /\ Chk("C22", << "constants of the offspring", EvOf(s.best.x) >>, Perturbed(s.best.x, Ev.x))
                  /\ Gen(t)
            [] C.algo = "moes" ->
                  LET par == { i \in s.un : Mutant(s.pop[i].x, Ev.x, 1) /\ Perturbed(s.pop[i].x, Ev.x) }
                  IN /\ Chk("C23", << "not a mutant of an individual without offspring yet", s.un, s.pop >>, par # {})
                     /\ IF par = {} THEN Gen(t) ELSE \E i \in par : Gen([t EXCEPT !.un = @ \ {i}])
            [] C.algo \in {"mes", "momes"} ->
                  LET q == { i \in 1..Len(s.pend) : s.pend[i].ks = {"G", "H"} /\ Learned(s.pend[i].x, s.pend[i].g, s.pend[i].h, Ev.x) }
                      rm(i) == SubSeq(s.pend, 1, i - 1) \o SubSeq(s.pend, i + 1, Len(s.pend))
                      direct == NE = 0 /\ C.algo = "mes" /\ Mutant(s.best.x, Ev.x, 1)
                      pd == { i \in s.un : NE = 0 /\ C.algo = "momes" /\ Mutant(s.pop[i].x, Ev.x, 0) }
                  IN IF q # {} THEN \E i \in q : Gen([t EXCEPT !.pend = rm(i)])
                     ELSE IF pd # {} THEN \E i \in pd : Gen([t EXCEPT !.un = @ \ {i}])
                     ELSE /\ Chk(P, << "not a mutant after one learning step", s.pend >>, direct)
                          /\ Gen([t EXCEPT !.pend = IF @ = << >> THEN @ ELSE Tail(@)])
            [] C.algo = "gd" ->
                  LET x0 == s.best.x
                      want(i) == DSub(x0[i], DMul(DDiv(s.dir[i], s.gn), s.lr))
                      n == V!GDAfter([best |-> s.best, lr |-> s.lr, gen |-> s.gen, done |-> FALSE], o,
                                     LAMBDA v : DExactV(DMul(v, DStr("1.5"))), LAMBDA v : DExactV(DDiv(v, DInt(4))),
                                     LAMBDA v : DLt(v, C.lrmin), C.gen)
                      u == [s EXCEPT !.fe = @ + 1, !.gen = n.gen, !.lr = n.lr, !.dir = << >>, !.best = n.best]
                  IN /\ Chk("C24", "a step without a gradient", s.dir # << >>)
                     /\ IF s.dir = << >> THEN UNCHANGED s ELSE
                        /\ Chk("C24", << "step", [i \in 1..NE |-> DShow(want(i))] >>,
                               SameGenes(x0, Ev.x) /\ \A i \in 1..NE : DAgrees(DBlur(want(i), DStr("1e-13")), Ev.x[i]))
                        /\ s' = IF n.done THEN Line([u EXCEPT !.done = TRUE], u.gen) ELSE Maybe(u)

----------------------------------------------------------------------------------
Close(a, b) == DAgrees(DBlur(a, DStr("1e-12")), b)
TrueFit(i) ==
    /\ Len(Ev.fs[i]) = IF MO THEN 2 ELSE 1
    /\ MO => Ev.fs[i][2] = Ev.re[i][2]
    /\ Close(Ev.re[i][1], Ev.fs[i][1]) \/ Close(Ev.re2[i][1], Ev.fs[i][1])
SameBag(p, q) == Len(p) = Len(q) /\ \A i \in 1..Len(p) : Cardinality({ j \in 1..Len(p) : p[j] = p[i] }) = Cardinality({ j \in 1..Len(q) : q[j] = p[i] })
Start == Inds(C.xs, C.fs)
Rep(pop) == CASE C.rep = -1 -> BestOf(pop) [] C.rep = -2 -> WorstOf(pop) [] C.rep = -3 -> 1..Len(pop) [] OTHER -> {C.rep + 1}
Final == IF C.gen = 0 THEN {Start}
         ELSE CASE C.algo = "es" -> V!EsFinalW(Start, s.last, s.best, WorstOf)
                [] C.algo = "mes" -> V!MesFinalW(Start, s.b0, s.best, WorstOf)
                [] C.algo = "gd" -> IF ~DIsFinite(s.best.f[1]) THEN {Start} ELSE { [Start EXCEPT ![i] = s.best] : i \in Rep(Start) }
\* log lines
Num(a, b) == DSame(a, b)
SOLine(w, o) ==
    /\ o[1] = w.gen /\ o[2] = w.fe /\ Num(o[3], Loss(w.best)) /\ o[4] = EvOf(w.best.x)
    /\ TextOk([kind |-> "plain", g |-> s.g, es |-> [i \in 1..NE |-> "c" \o ToString(i)]],
              XOf(s.g, NE, w.best.x), EvOf(w.best.x), << >>, << >>, Ev.p, o[5])
MOLine(w, o) ==
    LET nd == V!Front1(w.pop, 1..Len(w.pop))
        k == Cardinality({ w.pop[i].f : i \in nd })
    IN /\ o[1] = w.gen /\ o[2] = w.fe
       /\ (\E i \in 1..Len(w.pop) : ~DIsFinite(Loss(w.pop[i]))) \/
          (/\ Num(o[3], Ideal(w.pop))
           /\ k <= o[4] /\ o[4] <= Cardinality(nd)
           /\ \E i \in nd : o[5] = w.pop[i].f[2] /\ \A j \in nd : DLe(w.pop[j].f[2], o[5]))
GDLine(w, o) ==
    /\ o[1] = w.gen /\ o[2] = w.fe /\ o[3] = w.ge
    /\ Close(w.gn, o[4]) /\ Close(w.lr, o[5]) /\ Num(o[6], Loss(w.best))
LogOk ==
    LET w == s.lines
        ok(i) == IF MO THEN MOLine(w[i], Ev.log[i]) ELSE IF C.algo = "gd" THEN GDLine(w[i], Ev.log[i]) ELSE SOLine(w[i], Ev.log[i])
        extra == [gen |-> s.gen, fe |-> s.fe, ge |-> s.ge, best |-> s.best, pop |-> s.pop, lr |-> s.lr, gn |-> s.gn]
    IN /\ \/ Len(Ev.log) = Len(w)
          \/ MO /\ s.early /\ C.verb > 0 /\ Len(Ev.log) = Len(w) + 1 /\ MOLine(extra, Ev.log[Len(w) + 1])
       /\ \A i \in 1..Len(w) : ok(i)
TEnd ==
    /\ Is("End") /\ s.ph = "run"
    /\ Chk("C25", "the evolution failed", ~Ev.threw)
    /\ IF Ev.threw THEN TRUE ELSE
       LET pop == Inds(Ev.xs, Ev.fs) IN
       /\ Chk("C25", << "generations or evaluations missing", s.gen, s.fe, Len(s.off) >>, s.done)
       /\ Chk(P, "size of the population", Len(pop) = NP)
       /\ \A i \in 1..Len(pop) : Chk(P, << "genes out of their bounds", i >>, GenesOk(s.g, NE, pop[i].x))
       /\ \A i \in 1..Len(pop) : Chk(P, << "not the fitness of the individual", i >>, TrueFit(i))
       /\ IF ~s.done THEN TRUE
          ELSE IF MO THEN /\ Chk("C23", << "population", s.pop >>, SameBag(pop, s.pop))
                          /\ Chk("C25", << "not the population of the same run cut here", s.pop >>, pop = s.pop)
          ELSE Chk(P, << "population", [i \in 1..NP |-> DShow(Loss(Start[i]))], Final >>, pop \in Final)
       /\ C.gen > 0 => Chk("C25", << "log", s.lines >>, LogOk)
       /\ C.verb = 0 => Chk("C25", "printed with verbosity off", ~Ev.printed)
       /\ \A i \in 1..Len(Ev.vars) : Chk("C25", << "another result", Ev.vars[i] >>, Ev.vars[i].same /\ Ev.vars[i].log)
    /\ s' = Idle
TCtor ==
    /\ Is("Ctor") /\ UNCHANGED s
    /\ Chk("C25", "parameters accepted or rejected",
           Ev.threw = IF Ev.algo = "gd" THEN DLe(Ev.lrmin, Zero) \/ DLe(Ev.lr, Ev.lrmin) ELSE Ev.mut = 0 \/ DLt(Ev.ftol, Zero))
TRej == Is("Rej") /\ UNCHANGED s /\ Chk("C25", "an unsuitable population was accepted, or the log changed", Ev.threw = Ev.expect /\ Ev.kept)
TReset == Is("Reset") /\ s' = Idle
TInit == l = 1 /\ s = Idle
TNext == TEvo \/ TStart \/ TD \/ TF \/ TEnd \/ TCtor \/ TRej \/ TReset
TSpec == TInit /\ [][TNext]_vars
\* every event was explained
Accepted == TLCGet("stats").diameter - 1 = Len(Trace) + Cardinality({ i \in 1..Len(Trace) : Trace[i].event = "Evo" })
===================================================================================
