---------------------------------- MODULE Evolve ----------------------------------
(* What the evolutionary algorithms may do to a population, as relations on           *)
(* individuals [x, f] (f: the sequence of objectives).  LessF is the strict order of  *)
(* losses in which NaN comes last.                                                    *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANT LessF(_, _)
LOCAL Dom(q) == 1..Len(q)
NotWorse(a, b) == ~LessF(b, a)
\* positions of the best and of the worst loss
BestIdx(pop) == { i \in Dom(pop) : \A j \in Dom(pop) : NotWorse(pop[i].f[1], pop[j].f[1]) }
WorstIdx(pop) == { i \in Dom(pop) : \A j \in Dom(pop) : NotWorse(pop[j].f[1], pop[i].f[1]) }
\* the incumbent after a generation of offspring: neutral drift in (1 + lambda), strict progress in the memetic variant
EsBest(best, off) ==
    LET b == { off[i] : i \in BestIdx(off) } IN IF \A o \in b : NotWorse(o.f[1], best.f[1]) THEN b ELSE {best}
MesBest(best, off) ==
    LET b == { off[i] : i \in BestIdx(off) } IN IF \A o \in b : LessF(o.f[1], best.f[1]) THEN b ELSE {best}
\* the populations a run may return: the last offspring in the places where they improve, then the incumbent
\* in the place of the worst if it improves it
EsFinalW(pop, off, best, worst(_)) ==
    LET p == [i \in Dom(pop) |-> IF LessF(off[i].f[1], pop[i].f[1]) THEN off[i] ELSE pop[i]]
    IN { IF LessF(best.f[1], p[w].f[1]) THEN [p EXCEPT ![w] = best] ELSE p : w \in worst(p) }
EsFinal(pop, off, best) == EsFinalW(pop, off, best, WorstIdx)
\* memetic: the incumbent in the place of the worst if it improves the best of the start (in place b)
MesFinalW(pop, b, best, worst(_)) ==
    { IF LessF(best.f[1], pop[b].f[1]) THEN [pop EXCEPT ![w] = best] ELSE pop : w \in worst(pop) }
MesFinal(pop, best) == MesFinalW(pop, CHOOSE i \in BestIdx(pop) : TRUE, best, WorstIdx)
\* gradient descent: st = [best, lr, gen, done] after the trial point y was evaluated
GDAfter(st, y, grow(_), shrink(_), below(_), max) ==
    LET better == LessF(y.f[1], st.best.f[1])
        lr == IF better THEN grow(st.lr) ELSE shrink(st.lr)
    IN [best |-> IF better THEN y ELSE st.best, lr |-> lr, gen |-> st.gen + 1, done |-> (~better /\ below(lr)) \/ st.gen + 1 = max]
\* multi-objective: dominance, the fronts of a union, and the selections of the n best
Dominates(a, b) == (\A i \in Dom(a) : NotWorse(a[i], b[i])) /\ (\E i \in Dom(a) : LessF(a[i], b[i]))
Front1(u, s) == { i \in s : \A j \in s : ~Dominates(u[j].f, u[i].f) }
RECURSIVE Fronts(_, _)
Fronts(u, s) == IF s = {} THEN << >> ELSE LET f == Front1(u, s) IN << f >> \o Fronts(u, s \ f)
\* set s of positions of u is a selection of its n best: whole fronts, then any part of the next
SelSet(u, s, n) ==
    LET fr == Fronts(u, Dom(u))
    IN Cardinality(s) = n /\ \A k \in Dom(fr) : (fr[k] \ s # {}) => \A m \in (k + 1)..Len(fr) : fr[m] \cap s = {}
\* population q (a sequence) consists of a selection of the union u
SelectionOf(u, q, n) ==
    LET fr == Fronts(u, Dom(u))
        cnt(v, p) == Cardinality({ i \in Dom(p) : p[i] = v })
        rank(v) == CHOOSE k \in Dom(fr) : \E i \in fr[k] : u[i] = v
        size(k) == Cardinality({ i \in Dom(q) : rank(q[i]) = k })
    IN /\ Len(q) = n
       /\ \A i \in Dom(q) : cnt(q[i], q) <= cnt(q[i], u)
       /\ \A k \in Dom(fr) : size(k) < Cardinality(fr[k]) => \A m \in (k + 1)..Len(fr) : size(m) = 0
\* offspring that bring nothing new, or no finite loss, are not inserted (memetic multi-objective)
Insert(u, o, finite(_)) == IF finite(o.f[1]) /\ \A i \in Dom(u) : u[i].f # o.f THEN Append(u, o) ELSE u
===================================================================================
