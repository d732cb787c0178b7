--------------------------------- MODULE MCInter ----------------------------------
(* Configurations of Interleave: two threads, nested calls, one program for both.   *)
EXTENDS Interleave
CONSTANTS WORK
\* WORK: what is called by whom
Calls(t) == CASE WORK = "distinct" -> << << t, t + 1 >> >>
              [] WORK = "same" -> << << 1, t + 1 >> >>
              [] WORK = "nested" -> << << t, t + 1 >> >>
              [] WORK = "three" -> << << 3, t + 1 >>, << 1, t + 2 >> >>
In(t) == IF WORK = "nested" THEN << 3, 7 >> ELSE << >>
===================================================================================
