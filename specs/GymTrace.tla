--------------------------------- MODULE GymTrace ---------------------------------
(* Recorded calls of the real generators, in any order, on outputs with any previous  *)
(* content, which the caller then scribbles on.  D: some content, met for the first   *)
(* time (a number is repeated only by equal content); Call: a call and what the two   *)
(* outputs hold after it; Keep: buffers not passed still hold what they held.         *)
EXTENDS Gym, Json, IOUtils, TLC
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, data, first, seen
vars == << l, data, first, seen >>
Ev == Trace[l]
Chk(why, c) == IF c THEN TRUE ELSE PrintT(<< "REJECT", l, why, Ev >>) /\ FALSE
Is(e) == l <= Len(Trace) /\ Ev.event = e /\ l' = l + 1
TInit == l = 1 /\ data = << >> /\ first = [g \in {} |-> 0] /\ seen = 0
TD == Is("D") /\ data' = Append(data, l) /\ UNCHANGED << first, seen >>
At(k) == Trace[data[k]].v
TCall ==
    /\ Is("Call")
    /\ LET g == Ev.gen
           now == << Ev.p, Ev.l >>
       IN IF g \in DOMAIN first
          THEN Chk(<< "not the data of the first call", first[g] >>, first[g] = now) /\ UNCHANGED first
          ELSE /\ Chk("not the data of this generator", DataOf(g, At(Ev.p), At(Ev.l)))
               /\ first' = (g :> now) @@ first
    /\ Chk("another buffer changed", Ev.kept)
    /\ seen' = seen + 1 /\ UNCHANGED data
TNext == TD \/ TCall
Spec == TInit /\ [][TNext]_vars
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
===================================================================================
