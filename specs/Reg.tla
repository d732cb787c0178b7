----------------------------------- MODULE Reg -----------------------------------
(* The design of a regression problem as an object with memory: the program inside   *)
(* (cur), the phenotype correction (pc) and a remembered loss (cache) that            *)
(* derivative evaluations leave behind and fitness evaluations may answer from.       *)
(* Vectors and corrections are tokens; the loss of a vector under a correction is a   *)
(* pair, so that an answer tells what it was computed from.  The derivatives are      *)
(* those of the program with protected division replaced by division ("quot").        *)
EXTENDS Integers, FiniteSets
CONSTANTS XS, PCS, Pdiv, Broken
VARIABLES cur, pc, cache, ans
vars == << cur, pc, cache, ans >>
Bad == "bad"                             \* a vector that encodes no program
Loss(x, c) == << "true", x, c >>
LossQ(x, c) == << IF Pdiv THEN "quot" ELSE "true", x, c >>
NoCache == << >>
Init == cur = "start" /\ pc = "none" /\ cache = NoCache /\ ans = << >>
Answer(x) == IF cache # NoCache /\ cache[1] = x THEN cache[2] ELSE Loss(x, pc)
Fit(x) == IF x = Bad THEN ans' = << "Fit", x, pc, << "rejected" >> >> /\ UNCHANGED << cur, pc, cache >>
          ELSE cur' = x /\ ans' = << "Fit", x, pc, Answer(x) >> /\ UNCHANGED << pc, cache >>
Deriv(x) == IF x = Bad THEN ans' = << "Deriv", x, pc, << "rejected" >> >> /\ UNCHANGED << cur, pc, cache >>
            ELSE /\ cache' = IF Pdiv /\ Broken # "pdiv" THEN cache ELSE << x, LossQ(x, pc) >>
                 /\ ans' = << "Deriv", x, pc, LossQ(x, pc) >>
                 /\ UNCHANGED << cur, pc >>
Model(x) == IF x = Bad THEN ans' = << "Model", x, pc, << "rejected" >> >> /\ UNCHANGED << cur, pc, cache >>
            ELSE cur' = x /\ ans' = << "Model", x, pc, << x, pc >> >> /\ UNCHANGED << pc, cache >>
SetPC(c) == pc' = c /\ cache' = (IF Broken = "pc" THEN cache ELSE NoCache) /\ ans' = << "Set" >> /\ UNCHANGED cur
Next == (\E x \in XS \cup {Bad} : Fit(x) \/ Deriv(x) \/ Model(x)) \/ (\E c \in PCS \cup {"none"} : SetPC(c))
Spec == Init /\ [][Next]_vars
\* the answers do not depend on the past
FitInv == ans # << >> => (ans[1] = "Fit" /\ ans[2] # Bad => ans[4] = Loss(ans[2], ans[3]))
DerivInv == ans # << >> => (ans[1] = "Deriv" /\ ans[2] # Bad => ans[4] = LossQ(ans[2], ans[3]))
CurInv == ans # << >> => (ans[1] \in {"Fit", "Model"} /\ ans[2] # Bad => cur = ans[2])
Reject == [][ans'[1] \in {"Fit", "Deriv", "Model"} /\ ans'[4] = << "rejected" >> => UNCHANGED << cur, pc, cache >>]_vars
===================================================================================
