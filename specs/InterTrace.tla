-------------------------------- MODULE InterTrace --------------------------------
(* Calls of the real code made while others were under way (the schedules are those  *)
(* of Interleave): each gave what it gives alone, evaluations the value of their    *)
(* program, and what nobody changed is unchanged.                                   *)
EXTENDS CgpObj, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, n
vars == << l, n >>
Ev == Trace[l]
Chk(why, c) == IF c THEN TRUE ELSE PrintT(<< "REJECT", l, why, Ev >>) /\ FALSE
Is(e) == l <= Len(Trace) /\ Ev.event = e /\ l' = l + 1
Obj(kind, r) == [kind |-> kind, g |-> Geo(r.g.n, r.g.m, r.g.r, r.g.c, r.g.l, r.g.ar, r.g.f), x |-> r.x, ev |-> r.ev, es |-> r.es, w |-> r.w, b |-> r.b, pc |-> NoPc]
CallOk(c) ==
    LET o == Obj(Ev.kind, Ev.objs[c.o]) IN
    /\ Chk(<< "not what the call gives alone", c.k >>, c.res = c.solo \/ (c.k = "Loss" /\ c.par > 0))
    /\ IF c.k = "Eval" THEN Chk("value", c.pure => SameVals(Eval(o, JSeq(c.p)), c.res.d))
       ELSE IF c.k = "Loss" THEN Chk("loss", DAgrees(LossOf(o, o.w, o.b, c.pts, c.ys, c.ls).v, c.res.d[1]))
       ELSE IF c.k = "Loss1" THEN Chk("loss", DAgrees(LossOf(o, o.w, o.b, SubSeq(c.pts, 1, 1), SubSeq(c.ys, 1, 1), c.ls).v, c.res.d[1]))
       ELSE IF c.k = "Sym" THEN Chk("printed formula", TextOk(o, o.x, o.ev, o.w, o.b, c.p, c.res.s))
       ELSE TRUE
\* a call of a thread that changed its program before is made on the changed program: only compared with what it gives alone
Before(i) == \A j \in 1..(i - 1) : Ev.calls[j].t = Ev.calls[i].t => Ev.calls[j].pure
Inter == /\ Is("Inter")
         /\ \A i \in 1..Len(Ev.calls) :
              IF Before(i) THEN CallOk(Ev.calls[i])
              ELSE Chk(<< "not what the call gives alone", Ev.calls[i].k >>, Ev.calls[i].res = Ev.calls[i].solo \/ Ev.calls[i].par > 0)
         /\ \A i \in 1..Len(Ev.objs) : Chk("an object nobody changed", Ev.after[i].s = "changed" \/ Ev.after[i] = Ev.objs[i])
         /\ n' = n + Len(Ev.calls)
Probs == /\ Is("Probs")
         /\ \A i \in 1..Len(Ev.calls) : Chk(<< "not what the call gives alone", Ev.calls[i].k >>, Ev.calls[i].res = Ev.calls[i].solo)
         /\ n' = n + Len(Ev.calls)
End == /\ Is("End")
       /\ PrintT(<< "STAT", "calls", n >>) /\ PrintT(<< "STAT", "scheduling points", Ev.gates >>)
       /\ PrintT(<< "STAT", "switches", Ev.switches >>) /\ PrintT(<< "STAT", "nested calls", Ev.nests >>)
       /\ UNCHANGED n
Next == Inter \/ Probs \/ End
Init == l = 1 /\ n = 0
Spec == Init /\ [][Next]_vars
Accepted == LET d == TLCGet("stats").diameter IN
    IF d = Len(Trace) + 1 THEN PrintT(<< "CONSUMED", Len(Trace) >>)
    ELSE PrintT(<< "REJECT", d, "no step for", Trace[d] >>) /\ FALSE
===================================================================================
