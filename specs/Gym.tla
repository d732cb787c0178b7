----------------------------------- MODULE Gym -----------------------------------
(* The benchmark generators: what each one must write into its two outputs.          *)
(* Functions and boxes are those of the papers the generators cite (Izzo et al. 2017, *)
(* Vladislavleva et al. 2009), tables those of the NIST archive.                      *)
EXTENDS Integers, Sequences, FiniteSets, Dbl, SequencesExt, GymData
LOCAL One == DInt(1)
LOCAL I(n) == DInt(n)
LOCAL a ++ b == DAdd(a, b)
LOCAL a -- b == DSub(a, b)
LOCAL a ** b == DMul(a, b)
LOCAL a // b == DDiv(a, b)
RECURSIVE Pw(_, _)
Pw(x, k) == IF k = 1 THEN x ELSE x ** Pw(x, k - 1)
SumD(q) == FoldLeft(LAMBDA a, v : a ++ v, I(0), q)
Salutowicz(u) == LET s == DSin(u) c == DCos(u) IN (((DExp(DNeg(u)) ** Pw(u, 3)) ** c) ** s) ** ((c ** Pw(s, 2)) -- One)
\* the function of a generator at a point
F(g, x) ==
    LET u == x[1] IN
    CASE g = "koza_quintic" -> (Pw(u, 5) -- (I(2) ** Pw(u, 3))) ++ u
      [] g = "P1" -> (Pw(u, 5) -- (DPi ** Pw(u, 3))) ++ u
      [] g = "P2" -> (Pw(u, 5) -- (DPi ** Pw(u, 3))) ++ ((I(2) ** DPi) // u)
      [] g = "P3" -> ((DEuler ** Pw(u, 5)) ++ Pw(u, 3)) // (u ++ One)
      [] g = "P4" -> DSin(DPi ** u) ++ (One // u)
      [] g = "P5" -> ((DEuler ** Pw(u, 5)) -- (DPi ** Pw(u, 3))) ++ u
      [] g = "P6" -> ((DEuler ** Pw(u, 2)) -- One) // (DPi ** (u ++ I(2)))
      [] g = "P7" -> DCos(DPi ** u) ++ DSin(DEuler ** u)
      [] g = "kotanchek" -> DExp(DNeg(Pw(u -- One, 2))) // (DStr("1.2") ++ Pw(x[2] -- DStr("2.5"), 2))
      [] g = "salutowicz" -> Salutowicz(u)
      [] g = "salutowicz2d" -> Salutowicz(u) ** (x[2] -- I(5))
      [] g = "uball5d" -> I(10) // (I(5) ++ SumD([i \in 1..5 |-> Pw(x[i] -- I(3), 2)]))
      [] g = "ratpol3d" -> ((I(30) ** (u -- One)) ** (x[3] -- One)) // (Pw(x[2], 2) ** (u -- I(10)))
      [] g = "sinecosine" -> (I(6) ** DSin(u)) ** DCos(x[2])
      [] g = "ripple" -> ((u -- I(3)) ** (x[2] -- I(3))) ++ (I(2) ** DSin((u -- I(4)) ** (x[2] -- I(4))))
      [] g = "ratpol2d" -> ((Pw(u -- I(3), 4) ++ Pw(x[2] -- I(3), 3)) -- (x[2] -- I(3))) // (Pw(x[2] -- I(2), 4) ++ I(10))
Box(lo, hi) == << DStr(lo), DStr(hi) >>
\* equally spaced points
Grids == [koza_quintic |-> << Box("-3", "3"), 10 >>, P1 |-> << Box("1", "3"), 10 >>, P2 |-> << Box("0.1", "5"), 10 >>,
          P3 |-> << Box("-0.9", "1"), 10 >>, P4 |-> << Box("-1", "1"), 10 >>, P5 |-> << Box("1", "3"), 10 >>,
          P6 |-> << Box("-2.1", "1"), 10 >>, P7 |-> << Box("-1", "1"), 10 >>, salutowicz |-> << Box("0.05", "10"), 100 >>]
\* points drawn in a box
LOCAL Same(b, n) == [i \in 1..n |-> b]
Draws == [kotanchek |-> << Same(Box("0.3", "4"), 2), 100 >>, salutowicz2d |-> << Same(Box("0.05", "10"), 2), 601 >>,
          uball5d |-> << Same(Box("0.05", "6.05"), 5), 1024 >>,
          ratpol3d |-> << << Box("0.05", "2"), Box("1", "2"), Box("0.05", "2") >>, 300 >>,
          sinecosine |-> << Same(Box("0.1", "5.9"), 2), 30 >>, ripple |-> << Same(Box("0.05", "6.05"), 2), 300 >>,
          ratpol2d |-> << Same(Box("0.05", "6.05"), 2), 50 >>]
LOCAL Tab(p, l) == [i \in 1..Len(p) |-> << DStr(p[i]), DStr(l[i]) >>]
Tables == [chwirut1 |-> Tab(chwirut1_points, chwirut1_labels), chwirut2 |-> Tab(chwirut2_points, chwirut2_labels),
           daniel_wood |-> Tab(daniel_wood_points, daniel_wood_labels), gauss1 |-> Tab(gauss1_points, gauss1_labels),
           kirby2 |-> Tab(kirby2_points, kirby2_labels), lanczos2 |-> Tab(lanczos2_points, lanczos2_labels),
           misra1b |-> Tab(misra1b_points, misra1b_labels), luca1 |-> Tab(luca1_points, luca1_labels)]
Gens == DOMAIN Grids \cup DOMAIN Draws \cup DOMAIN Tables

Near(a, b) == DAgrees(DBlur(a, DStr("1e-13")), b)
Labels(g, p, l) == Len(l) = Len(p) /\ \A i \in 1..Len(p) : Len(l[i]) = 1 /\ Near(F(g, p[i]), l[i][1])
\* the k-th of n parts of an interval has a point in it: the sample spreads over its box
Spread(p, j, b, n) ==
    \A k \in 1..n : LET w == DDiv(b[2] -- b[1], I(n))
                        lo == b[1] ++ (I(k - 1) ** w)
                        hi == b[1] ++ (I(k) ** w)
                    IN \E i \in 1..Len(p) : DLe(lo, p[i][j]) /\ DLe(p[i][j], hi)
\* points and labels are data of g
DataOf(g, p, l) ==
    CASE g \in DOMAIN Grids ->
            LET b == Grids[g][1]
                n == Grids[g][2]
            IN /\ Len(p) = n
               /\ \A i \in 1..n : Len(p[i]) = 1 /\ Near(b[1] ++ ((I(i - 1) ** (b[2] -- b[1])) // I(n - 1)), p[i][1])
               /\ Labels(g, p, l)
      [] g \in DOMAIN Draws ->
            LET b == Draws[g][1]
                n == Draws[g][2]
            IN /\ Len(p) = n
               /\ \A i \in 1..n : Len(p[i]) = Len(b) /\ \A j \in 1..Len(b) : DLe(b[j][1], p[i][j]) /\ DLe(p[i][j], b[j][2])
               /\ Cardinality({ p[i] : i \in 1..n }) = n
               /\ \A j \in 1..Len(b) : Spread(p, j, b[j], 5)
               /\ \A j, k \in 1..Len(b) : j # k => \E i \in 1..n : p[i][j] # p[i][k]
               /\ Labels(g, p, l)
      [] g \in DOMAIN Tables ->
            LET t == Tables[g] IN
            /\ Len(p) = Len(t) /\ Len(l) = Len(t)
            /\ \A i \in 1..Len(t) : p[i] = << t[i][1] >> /\ l[i] = << t[i][2] >>
===================================================================================
