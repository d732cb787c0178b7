-------------------------------- MODULE RngTrace --------------------------------
(* Validates recorded histories of the real generator.                             *)
(*   Seed    : the generator was seeded with s (no other call running)              *)
(*   Draws   : consecutive draws by one thread, values in order                     *)
(*   Par     : n threads drew concurrently; per thread the values, and as witness   *)
(*             the position of each in the sequence (checked here, not trusted)     *)
(*   Mix     : draws and re-seeds of all threads with call/return stamps; witness   *)
(*             <<epoch, position>>, checked here against the linearization order    *)
EXTENDS MT, FiniteSets, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l,      \* next line
          prs,    \* the sequence started by the current seed (as far as it is needed)
          pos     \* how many of its values have been handed out
vars == << l, prs, pos >>
Ev == Trace[l]
Reject(why) == PrintT(<< "REJECT", l, why >>) /\ FALSE
Chk(why, c) == c \/ Reject(why)
Init == l = 1 /\ prs = << >> /\ pos = 0
Is(e) == l <= Len(Trace) /\ Ev.event = e /\ l' = l + 1

Seed == /\ Is("Seed") /\ prs' = MTSeq(Ev.s, Ev.need) /\ pos' = 0
Draws == /\ Is("Draws")
         /\ pos' = pos + Len(Ev.v) /\ UNCHANGED prs
         /\ Chk("draws are not the next values of the sequence",
                \A i \in 1..Len(Ev.v) : Ev.v[i] = prs[pos + i])
\* concurrent draws: the witness positions are a partition of the next values, increasing per thread
Par == /\ Is("Par")
       /\ LET tot == FoldLeft(LAMBDA a, t : a + Len(t), 0, Ev.v)
              idx == { << t, i >> : t \in 1..Len(Ev.v), i \in 1..(tot) }
              used == { << t, i >> \in idx : i <= Len(Ev.v[t]) }
              ps == { Ev.w[u[1]][u[2]] : u \in used }
          IN /\ Chk("a value is not of the sequence", \A u \in used :
                        LET p == Ev.w[u[1]][u[2]] IN p > pos /\ p <= pos + tot /\ Ev.v[u[1]][u[2]] = prs[p])
             /\ Chk("a value was handed out twice or lost", Cardinality(ps) = tot)
             /\ Chk("a thread saw values out of order", \A t \in 1..Len(Ev.v) :
                        \A i \in 1..(Len(Ev.w[t]) - 1) : Ev.w[t][i] < Ev.w[t][i + 1])
             /\ pos' = pos + tot
       /\ UNCHANGED prs
\* Ev.calls: in the claimed linearization order, [k: 0 seed | 1 draw, e, p, v, b, r] (b, r: call and return stamps)
RECURSIVE Lin(_, _, _)
Lin(c, i, maxb) == IF i > Len(c) THEN TRUE ELSE
    /\ Chk(<< "no atomic order of the calls explains the results", i >>, c[i].r > maxb)
    /\ Lin(c, i + 1, IF c[i].b > maxb THEN c[i].b ELSE maxb)
Mix == /\ Is("Mix")
       /\ LET c == Ev.calls
              sq == [e \in 1..Len(Ev.seeds) |-> MTSeq(Ev.seeds[e], Ev.need[e])]
          IN /\ Chk("order of the calls", \A i \in 1..Len(c) :
                  \/ c[i].k = 0 /\ c[i].p = 0 /\ c[i].e = (IF i = 1 THEN 1 ELSE c[i - 1].e + 1)
                  \/ c[i].k = 1 /\ i > 1 /\ c[i].e = c[i - 1].e /\ c[i].p = c[i - 1].p + 1)
             /\ Chk("a value belongs to no sequence", \A i \in 1..Len(c) :
                  c[i].k = 1 => c[i].p <= Len(sq[c[i].e]) /\ c[i].v = sq[c[i].e][c[i].p])
             /\ Lin(c, 1, -1)
             /\ prs' = sq[Len(sq)] /\ pos' = c[Len(c)].p
Next == Seed \/ Draws \/ Par \/ Mix
Spec == Init /\ [][Next]_vars
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=================================================================================
