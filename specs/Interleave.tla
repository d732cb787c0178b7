-------------------------------- MODULE Interleave --------------------------------
(* Evaluations under way at the same time: several threads, and calls made from     *)
(* within a kernel of another call.  A call walks the nodes of its program; for each *)
(* node it gathers the arguments, enters the kernel (which may be a user's function, *)
(* may take its time and may evaluate programs itself) and stores what it returns.   *)
(* What a call keeps while under way lives in a cell; PLACE says whose the cell is:  *)
(* the call's own, the thread's, the program's or one for the whole process.  Only   *)
(* the first leaves every call with the value of its program.                       *)
(*                                                                                  *)
(* The behaviours of this module, printed by MCInter, are the schedules the driver   *)
(* imposes on the real code, kernel by kernel.                                      *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Threads,      \* {1, 2}
          Todo(_),      \* calls of a thread: a sequence of << program, input >>
          Inner(_),     \* the call a thread makes from within a kernel, or << >>
          PLACE, KEEP   \* KEEP: remember the schedule
\* a program: a sequence of nodes << f, i, j >>; node 0 is the input
Progs == << << <<"add", 0, 0>>, <<"mul", 1, 0>> >>, << <<"mul", 0, 0>>, <<"add", 1, 1>> >>, << <<"add", 0, 0>> >> >>
F(f, a, b) == IF f = "add" THEN a + b ELSE a * b
RECURSIVE Vals(_, _, _)
Vals(p, v, k) == IF k > Len(Progs[p]) THEN v ELSE
    LET n == Progs[p][k] IN Vals(p, Append(v, F(n[1], v[n[2] + 1], v[n[3] + 1])), k + 1)
Value(p, x) == LET v == Vals(p, << x >>, 1) IN v[Len(v)]

VARIABLES stack, todo, inner, cell, done, sched
vars == << stack, todo, inner, cell, done, sched >>
Cell(t, d, p) == CASE PLACE = "call" -> << t, d >> [] PLACE = "thread" -> << t >> [] PLACE = "program" -> << "p", p >> [] PLACE = "process" -> << "p" >>
Empty == [nodes |-> << >>, args |-> << 0, 0 >>]
Init == /\ stack = [t \in Threads |-> << >>]
        /\ todo = [t \in Threads |-> Todo(t)]
        /\ inner = [t \in Threads |-> Inner(t)]
        /\ cell = << >>
        /\ done = {}
        /\ sched = << >>
Get(c) == IF c \in DOMAIN cell THEN cell[c] ELSE Empty
Put(c, v) == cell' = (c :> v) @@ cell
Note(m) == sched' = IF KEEP THEN Append(sched, m) ELSE sched
\* a frame: program, input, node being computed, within the kernel or not
Frame(c) == [p |-> c[1], x |-> c[2], k |-> 1]
\* until the kernel of node k of the frame on top is entered
Gathered(t, st) ==
    LET d == Len(st)
        f == st[d]
        n == Progs[f.p][f.k]
        c == Cell(t, d, f.p)
        was == Get(c)
        nodes == IF f.k = 1 THEN << f.x >> ELSE was.nodes
        at(i) == IF i + 1 <= Len(nodes) THEN nodes[i + 1] ELSE 0
    IN /\ stack' = [stack EXCEPT ![t] = st]
       /\ Put(c, [nodes |-> nodes, args |-> << at(n[2]), at(n[3]) >>])
\* a call begins
Start(t) == /\ stack[t] = << >> /\ todo[t] # << >>
            /\ todo' = [todo EXCEPT ![t] = Tail(@)]
            /\ Gathered(t, << Frame(Head(todo[t])) >>)
            /\ Note(t) /\ UNCHANGED << inner, done >>
\* from within a kernel, another call begins
Nest(t) == /\ stack[t] # << >> /\ inner[t] # << >>
           /\ inner' = [inner EXCEPT ![t] = << >>]
           /\ Gathered(t, Append(stack[t], Frame(inner[t])))
           /\ Note(t + 10) /\ UNCHANGED << todo, done >>
\* the kernel computes and returns; the next one is entered, or the call ends
Go(t) == /\ stack[t] # << >>
         /\ LET st == stack[t]
                d == Len(st)
                f == st[d]
                n == Progs[f.p][f.k]
                c == Cell(t, d, f.p)
                was == Get(c)
                nodes == Append(was.nodes, F(n[1], was.args[1], was.args[2]))
                last == f.k = Len(Progs[f.p])
                at(i) == IF i + 1 <= Len(nodes) THEN nodes[i + 1] ELSE 0
                m == Progs[f.p][f.k + 1]
            IN IF last
               THEN /\ stack' = [stack EXCEPT ![t] = SubSeq(st, 1, d - 1)]
                    /\ Put(c, [was EXCEPT !.nodes = nodes])
                    /\ done' = done \cup { << t, d, f.p, f.x, nodes[IF f.k + 1 <= Len(nodes) THEN f.k + 1 ELSE Len(nodes)] >> }
               ELSE /\ stack' = [stack EXCEPT ![t] = [st EXCEPT ![d].k = f.k + 1]]
                    /\ Put(c, [nodes |-> nodes, args |-> << at(m[2]), at(m[3]) >>])
                    /\ UNCHANGED done
         /\ Note(t) /\ UNCHANGED << todo, inner >>
Over == \A t \in Threads : stack[t] = << >> /\ todo[t] = << >>
Next == \E t \in Threads : Start(t) \/ Nest(t) \/ Go(t)
Spec == Init /\ [][Next]_vars
\* every call ends with the value of its program
Undisturbed == \A r \in done : r[5] = Value(r[3], r[4])
Emit == IF KEEP /\ Over THEN PrintT("SCHED " \o ToString(sched)) ELSE TRUE
===================================================================================
