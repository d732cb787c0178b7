--------------------------------- MODULE MCEvolve ---------------------------------
(* The strategies as state machines over a table of losses: every population, every   *)
(* sequence of offspring.  What a user relies on is stated without the algorithm.     *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS NX, NP, Gens, Algo, Broken, NaN, FTol
XS == 1..NX
Less(a, b) == IF a = NaN THEN FALSE ELSE IF b = NaN THEN TRUE ELSE a < b
E == INSTANCE Evolve WITH LessF <- Less
VARIABLES tab, pop0, pop, best, gen, last, seen, stopped
vars == << tab, pop0, pop, best, gen, last, seen, stopped >>
MO == Algo = "mo"
Fits == IF MO THEN [1..2 -> {1, 2, NaN}] ELSE { << v >> : v \in {1, 2, NaN} }
Ind(x) == [x |-> x, f |-> tab[x]]
Pops == [1..NP -> XS]
Mk(p) == [i \in 1..NP |-> Ind(p[i])]
Init == /\ tab \in [XS -> Fits]
        /\ \E p \in Pops : pop0 = [i \in 1..NP |-> [x |-> p[i], f |-> tab[p[i]]]]
        /\ pop = pop0
        /\ best \in { pop0[i] : i \in E!BestIdx(pop0) }
        /\ gen = 0 /\ last = << >> /\ seen = {} /\ stopped = FALSE
Sets(u) == { s \in SUBSET (1..Len(u)) : Cardinality(s) = NP }
AsSeq(u, s) == LET RECURSIVE f(_)
                   f(r) == IF r = {} THEN << >> ELSE LET i == CHOOSE i \in r : \A j \in r : i <= j IN << u[i] >> \o f(r \ {i})
               IN f(s)
Ideal(p) == CHOOSE v \in { p[i].f[1] : i \in 1..NP } : \A i \in 1..NP : ~Less(p[i].f[1], v)
Final(p, o, b) == IF Algo = "es" THEN (IF Broken = "final" THEN { [p EXCEPT ![w] = b] : w \in 1..NP } ELSE E!EsFinal(p, o, b))
                  ELSE E!MesFinal(p, b)
Running == gen >= 0 /\ gen < Gens /\ ~stopped
SOStep == /\ ~MO /\ Running
          /\ \E q \in Pops :
             LET off == Mk(q) IN
             /\ best' \in (IF Broken = "last" THEN { off[NP] } ELSE IF Algo = "es" THEN E!EsBest(best, off) ELSE E!MesBest(best, off))
             /\ last' = off /\ seen' = seen \cup { off[i] : i \in 1..NP } /\ gen' = gen + 1
             /\ stopped' = Less(best'.f[1], FTol)
             /\ pop' = pop
          /\ UNCHANGED << tab, pop0 >>
SOEnd == /\ ~MO /\ (gen = Gens \/ stopped) /\ gen >= 0 /\ last # << >>
         /\ pop' \in Final(pop, last, best)
         /\ gen' = -1 /\ UNCHANGED << tab, pop0, best, last, seen, stopped >>
MOStep == /\ MO /\ Running /\ ~Less(Ideal(pop), FTol)
          /\ \E q \in Pops :
             LET u == pop \o Mk(q) IN
             /\ \E s \in Sets(u) :
                  /\ IF Broken = "sel" THEN TRUE ELSE E!SelSet(u, s, NP)
                  /\ pop' = AsSeq(u, s)
                  /\ Assert(Broken # "none" \/ E!SelectionOf(u, pop', NP), "SelectionOf")
             /\ last' = u /\ seen' = seen
          /\ gen' = gen + 1 /\ UNCHANGED << tab, pop0, best, stopped >>
Next == SOStep \/ SOEnd \/ MOStep
Spec == Init /\ [][Next]_vars
----------------------------------------------------------------------------------
MinF(s) == CHOOSE v \in { i.f[1] : i \in s } : \A i \in s : ~Less(i.f[1], v)
ASet(p) == { p[i] : i \in 1..Len(p) }
\* elitism: the incumbent is the best of everything seen
Incumbent == ~MO => best.f[1] = MinF(ASet(pop0) \cup seen)
\* what is returned: nothing got worse, everything is from the start or an offspring, the best found is there
Returned == (~MO /\ gen = -1) =>
    /\ Len(pop) = NP
    /\ \A i \in 1..NP : pop[i] # pop0[i] => pop[i] \in seen \cup ASet(pop0) /\ Less(pop[i].f[1], pop0[i].f[1])
    /\ MinF(ASet(pop)) = MinF(ASet(pop0) \cup seen)
\* individuals replaced only by better ones holds for (1 + lambda); the memetic one replaces the worst
ReturnedMes == (~MO /\ gen = -1) =>
    /\ Len(pop) = NP
    /\ Cardinality({ i \in 1..NP : pop[i] # pop0[i] }) <= 1
    /\ MinF(ASet(pop)) = MinF(ASet(pop0) \cup seen)
TrueFit == \A i \in 1..Len(pop) : pop[i].f = tab[pop[i].x]
\* multi-objective: a rejected individual does not dominate a kept one; the front is lost only for space
Kept == (MO /\ gen > 0) =>
    LET u == last
        cnt(v, p) == Cardinality({ i \in 1..Len(p) : p[i] = v })
        rej == { i \in 1..Len(u) : cnt(u[i], pop) < cnt(u[i], u) }
        nd(i) == \A j \in 1..Len(u) : ~E!Dominates(u[j].f, u[i].f)
    IN /\ Len(pop) = NP
       /\ \A i \in rej : \A k \in 1..NP : ~E!Dominates(u[i].f, pop[k].f)
       /\ \A i \in rej : nd(i) => \A k \in 1..NP : \A j \in 1..Len(u) : ~E!Dominates(u[j].f, pop[k].f)
\* the best loss never gets worse (the best loss of a front with too many points may be lost)
Elite == [][~MO /\ gen' > gen => ~Less(best.f[1], best'.f[1])]_vars
===================================================================================
