----------------------------------- MODULE Rng -----------------------------------
(* The global random generator: one engine, any number of threads drawing from it  *)
(* and re-seeding it.  A draw is: take the lock, read the engine, write the engine  *)
(* advanced by one, release, return; a re-seed: take the lock, write, release.      *)
(* The engine is abstracted to <<epoch, position>>: the value handed out at         *)
(* <<e, p>> is the p-th value of the sequence started by the e-th seed.             *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Threads, Calls, Locked          \* Calls: calls per thread; Locked = FALSE is the broken design
VARIABLES engine,      \* <<epoch, pos>> : last value handed out
          lock,        \* holder or "none"
          pc,          \* pc[t] in idle, draw_r, draw_w, seed_w, unlock
          reg,         \* engine as read by t
          n,           \* calls made by t
          given        \* history: sequence of [t, e, p]
vars == << engine, lock, pc, reg, n, given >>
TypeOK == /\ engine \in (Nat \X Nat) /\ lock \in Threads \cup {"none"}
Init == /\ engine = << 1, 0 >> /\ lock = "none"
        /\ pc = [t \in Threads |-> "idle"] /\ reg = [t \in Threads |-> << 0, 0 >>]
        /\ n = [t \in Threads |-> 0] /\ given = << >>
Begin(t, op) == /\ pc[t] = "idle" /\ n[t] < Calls
                /\ (Locked => lock = "none")
                /\ lock' = IF Locked THEN t ELSE lock
                /\ n' = [n EXCEPT ![t] = @ + 1]
                /\ pc' = [pc EXCEPT ![t] = op]
                /\ UNCHANGED << engine, reg, given >>
Read(t) == /\ pc[t] = "draw_r" /\ reg' = [reg EXCEPT ![t] = engine]
           /\ pc' = [pc EXCEPT ![t] = "draw_w"] /\ UNCHANGED << engine, lock, n, given >>
Write(t) == /\ pc[t] = "draw_w"
            /\ engine' = << reg[t][1], reg[t][2] + 1 >>
            /\ given' = Append(given, [t |-> t, e |-> reg[t][1], p |-> reg[t][2] + 1])
            /\ pc' = [pc EXCEPT ![t] = "unlock"] /\ UNCHANGED << lock, reg, n >>
SeedW(t) == /\ pc[t] = "seed_w" /\ engine' = << engine[1] + 1, 0 >>
            /\ pc' = [pc EXCEPT ![t] = "unlock"] /\ UNCHANGED << lock, reg, n, given >>
End(t) == /\ pc[t] = "unlock" /\ lock' = IF Locked THEN "none" ELSE lock
          /\ pc' = [pc EXCEPT ![t] = "idle"] /\ UNCHANGED << engine, reg, n, given >>
Next == \E t \in Threads : Begin(t, "draw_r") \/ Begin(t, "seed_w") \/ Read(t) \/ Write(t) \/ SeedW(t) \/ End(t)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

\* every value is handed out at most once
NoRepetition == \A i, j \in 1..Len(given) :
    i # j => << given[i].e, given[i].p >> # << given[j].e, given[j].p >>
\* none is skipped: the values of an epoch are a prefix of its sequence
NoLoss == \A i \in 1..Len(given) : \A p \in 1..(given[i].p - 1) :
    \E j \in 1..Len(given) : given[j].e = given[i].e /\ given[j].p = p
\* each thread sees its values in sequence order
ThreadOrder == \A i, j \in 1..Len(given) :
    (i < j /\ given[i].t = given[j].t) =>
        \/ given[i].e < given[j].e
        \/ given[i].e = given[j].e /\ given[i].p < given[j].p
MutualExclusion == \A s, t \in Threads : (s # t /\ pc[s] # "idle") => pc[t] = "idle"
AllDone == <>(\A t \in Threads : pc[t] = "idle" /\ (n[t] = Calls \/ lock # t))
==================================================================================
