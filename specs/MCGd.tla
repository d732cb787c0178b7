----------------------------------- MODULE MCGd -----------------------------------
(* The back-tracking step loop of gradient descent for every outcome of every trial:  *)
(* losses are arbitrary (NaN included), the gradient may vanish at any point.         *)
(* The step size is 3^a / 2^(a + 2 b) times the first: a steps taken, b refused.      *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Losses, NaN, Max, Ratio, Broken
Less(a, b) == IF a = NaN THEN FALSE ELSE IF b = NaN THEN TRUE ELSE a < b
E == INSTANCE Evolve WITH LessF <- Less
VARIABLES st, loss, start, trials
vars == << st, loss, start, trials >>
Grow(r) == [r EXCEPT !.a = @ + 1]
Shrink(r) == [r EXCEPT !.b = @ + 1]
RECURSIVE Pow(_, _)
Pow(x, k) == IF k = 0 THEN 1 ELSE x * Pow(x, k - 1)
\* below the minimum, which is the first step size over Ratio
Below(r) == Pow(3, r.a) * Ratio < Pow(2, r.a + 2 * r.b)
Init == /\ \E v \in Losses \ {NaN} : start = v
        /\ st = [best |-> [x |-> 0, f |-> << start >>], lr |-> [a |-> 0, b |-> 0], gen |-> 0, done |-> Max = 0]
        /\ loss = << >> /\ trials = 0
Step == \E v \in Losses :
        LET y == [x |-> trials + 1, f |-> << v >>]
            n == E!GDAfter(st, y, Grow, Shrink, Below, Max)
        IN /\ ~st.done
           /\ st' = IF Broken THEN [n EXCEPT !.best = y] ELSE n
           /\ loss' = Append(loss, v) /\ trials' = trials + 1 /\ UNCHANGED start
Vanish == ~st.done /\ st' = [st EXCEPT !.done = TRUE] /\ UNCHANGED << loss, start, trials >>
Next == Step \/ Vanish
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
----------------------------------------------------------------------------------
\* the loss is the best of all seen, never NaN, and the individual is where it was seen
Best == /\ st.best.f[1] # NaN
        /\ \A i \in 1..Len(loss) : ~Less(loss[i], st.best.f[1])
        /\ st.best.x = 0 => st.best.f[1] = start
        /\ st.best.x > 0 => st.best.f[1] = loss[st.best.x]
\* one trial an iteration, and no more than allowed
Counts == trials = st.gen /\ st.gen <= Max /\ st.lr.a + st.lr.b = st.gen
\* below the minimum the run is over
Minimum == Below(st.lr) => st.done
Monotone == [][~Less(st.best.f[1], st'.best.f[1])]_vars
Ends == <>(st.done)
===================================================================================
