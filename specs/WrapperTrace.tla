------------------------------ MODULE WrapperTrace ------------------------------
(* Validates recorded histories of the real wrapper against Wrapper's actions.      *)
EXTENDS Wrapper, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
Prop == IOEnv.PROP
VARIABLE l
Ev == Trace[l]
Chk(p, why, c) == IF p # Prop THEN TRUE ELSE IF c THEN TRUE ELSE PrintT(<< "REJECT", l, why, Ev >>) /\ FALSE
TInit == l = 1 /\ store = [a \in Slots |-> Dead] /\ hist = << >>
Is(e) == l <= Len(Trace) /\ Ev.event = e /\ l' = l + 1
\* what is observed of a slot
Seen(o, ob) ==
    /\ Chk("C02", "an object appeared or vanished, or a moved-from wrapper claims to be valid (or the reverse)", ob.k = o.k)
    /\ (IsFn(o) /\ ob.k = "fn") =>
          /\ Chk("C02", "wrong callable, or extraction with a wrong type", ob.t = << o.t >>)
          /\ Chk("C02", "wrong state of the callable", ob.v = o.v)
          /\ Chk("C03", "wrong thread-safety level", ob.ts = Level(o.t))
TReset == Is("Reset") /\ store' = [a \in Slots |-> Dead] /\ UNCHANGED hist
TOp == /\ Is("Op")
       /\ LET o == Ev.o IN
          /\ Enabled(store, o)
          /\ Chk("C02", "raised, or did not raise", Ev.threw = Throws(store, o))
          /\ (o.op = "call" /\ ~Throws(store, o)) =>
                Chk("C02", "wrong result of a call", Ev.res = CallResult(store[o.a], Ev.arg)[2])
          /\ o.op = "vector" => (Ev.threw \/ Chk("C02", "copies in a container are not equal and independent", Ev.res = 1))
          /\ store' = Step(store, o)
          /\ \A a \in Slots : Seen(store'[a], Ev.obs[a])
       /\ UNCHANGED hist
\* other signatures: the arguments reach the callable and its result comes back
Expect(kind, a) ==
    CASE kind = "three" -> << 100 * a[1] + 10 * a[2] + a[3] >>
      [] kind = "ref" -> << a[1] + 7 >>
      [] kind = "moveonly" -> << a[1] + 1, 1, 0 >>
      [] kind = "identity" -> << 1 >>
      [] kind = "noargs" -> << a[1] + 1 >>
      [] kind = "values" -> << a[1] + a[2] >>
      [] kind = "stored" -> << a[1] + a[2], 1 >>
      [] kind = "init" -> << a[1] + 2 * a[2] + 3 * a[3] >>
      [] kind = "acc" -> a
      [] kind = "null" -> << 1 >>
TForward == /\ Is("Forward") /\ UNCHANGED << store, hist >>
            /\ Chk("C02", "arguments or result not forwarded", Ev.res = Expect(Ev.kind, Ev.args))
TNext == TReset \/ TOp \/ TForward
TSpec == TInit /\ [][TNext]_<< vars, l >>
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=================================================================================
