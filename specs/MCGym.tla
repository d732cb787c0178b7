---------------------------------- MODULE MCGym ----------------------------------
(* Callers and generators: calls in any order on outputs with any content, which the  *)
(* caller changes as it likes.  A table generator copies, a drawing one starts its     *)
(* own engine.  After a call the outputs hold the data of the generator, always.       *)
(* Broken: "append" (outputs not cleared), "alias" (outputs share the table),          *)
(* "engine" (one engine for all calls).                                               *)
EXTENDS Gym, TLC
CONSTANTS Broken, Steps
VARIABLES buf, table, eng, last, n
vars == << buf, table, eng, last, n >>
B == {1, 2}
Grid == << 1, 2 >>
Init == buf = [b \in B |-> << >>] /\ table = << 3, 4 >> /\ eng = 0 /\ last = << >> /\ n = 0
Put(b, v) == buf' = [buf EXCEPT ![b] = IF Broken = "append" THEN @ \o v ELSE v]
CallGrid(b) == Put(b, Grid) /\ last' = << "grid", b >> /\ UNCHANGED << table, eng >>
CallTable(b) == (IF Broken = "alias" THEN buf' = [buf EXCEPT ![b] = << 0 >>] ELSE Put(b, table)) /\ last' = << "table", b >> /\ UNCHANGED << table, eng >>
CallDraw(b) == LET e == IF Broken = "engine" THEN eng ELSE 0
               IN Put(b, << 10 + e, 11 + e >>) /\ eng' = e + 2 /\ last' = << "draw", b >> /\ UNCHANGED table
\* the caller writes into a buffer (<< 0 >> stands for the table itself)
Scribble(b) == /\ IF buf[b] = << 0 >> THEN table' = << 7, 7 >> /\ UNCHANGED buf
                  ELSE buf' = [buf EXCEPT ![b] = IF Len(@) > 2 THEN << >> ELSE Append(@, 9)] /\ UNCHANGED table
               /\ last' = << >> /\ UNCHANGED eng
Next == /\ n < Steps /\ n' = n + 1
        /\ \E b \in B : CallGrid(b) \/ CallTable(b) \/ CallDraw(b) \/ Scribble(b)
Spec == Init /\ [][Next]_vars
Holds(b) == IF buf[b] = << 0 >> THEN table ELSE buf[b]
Data == [grid |-> Grid, table |-> << 3, 4 >>, draw |-> << 10, 11 >>]
Fresh == last = << >> \/ Holds(last[2]) = Data[last[1]]
----------------------------------------------------------------------------------
\* the tables are the ones NIST certifies: models, parameters, residual sums of squares
LOCAL a ++ b == DAdd(a, b)
LOCAL a -- b == DSub(a, b)
LOCAL a ** b == DMul(a, b)
LOCAL a // b == DDiv(a, b)
LOCAL Ex(b, x) == DExp(DNeg(b ** x))
LOCAL Bell(x, m, s) == DExp(DNeg(Pw((x -- m) // s, 2)))
Model(g, b, x) ==
    CASE g \in {"chwirut1", "chwirut2"} -> Ex(b[1], x) // (b[2] ++ (b[3] ** x))
      [] g = "daniel_wood" -> b[1] ** DPow(x, b[2])
      [] g = "gauss1" -> ((b[1] ** Ex(b[2], x)) ++ (b[3] ** Bell(x, b[4], b[5]))) ++ (b[6] ** Bell(x, b[7], b[8]))
      [] g = "kirby2" -> ((b[1] ++ (b[2] ** x)) ++ (b[3] ** Pw(x, 2))) // ((DInt(1) ++ (b[4] ** x)) ++ (b[5] ** Pw(x, 2)))
      [] g = "lanczos2" -> ((b[1] ** Ex(b[2], x)) ++ (b[3] ** Ex(b[4], x))) ++ (b[5] ** Ex(b[6], x))
      [] g = "misra1b" -> b[1] ** (DInt(1) -- (DInt(1) // Pw(DInt(1) ++ ((b[2] ** x) // DInt(2)), 2)))
Certified == [
    chwirut1 |-> << << "1.9027818370E-01", "6.1314004477E-03", "1.0530908399E-02" >>, "2.3844771393E+03" >>,
    chwirut2 |-> << << "1.6657666537E-01", "5.1653291286E-03", "1.2150007096E-02" >>, "5.1304802941E+02" >>,
    daniel_wood |-> << << "7.6886226176E-01", "3.8604055871E+00" >>, "4.3173084083E-03" >>,
    gauss1 |-> << << "9.8778210871E+01", "1.0497276517E-02", "1.0048990633E+02", "6.7481111276E+01", "2.3129773360E+01",
                     "7.1994503004E+01", "1.7899805021E+02", "1.8389389025E+01" >>, "1.3158222432E+03" >>,
    kirby2 |-> << << "1.6745063063E+00", "-1.3927397867E-01", "2.5961181191E-03", "-1.7241811870E-03", "2.1664802578E-05" >>, "3.9050739624E+00" >>,
    lanczos2 |-> << << "9.6251029939E-02", "1.0057332849E+00", "8.6424689056E-01", "3.0078283915E+00", "1.5529016879E+00", "5.0028798100E+00" >>, "2.2299428125E-11" >>,
    misra1b |-> << << "3.3799746163E+02", "3.9039091287E-04" >>, "7.5464681533E-02" >>]
Rss(g, b) == DExactV(SumD([i \in 1..Len(Tables[g]) |-> Pw(DExactV(Tables[g][i][2] -- Model(g, b, Tables[g][i][1])), 2)]))
ASSUME \A g \in DOMAIN Certified :
    LET c == Certified[g]
        r == Rss(g, [i \in 1..Len(c[1]) |-> DStr(c[1][i])])
        want == DStr(c[2])
    IN IF DLe(DAbs(r -- want), want ** DStr("1e-8")) THEN TRUE ELSE PrintT(<< "residuals", g, DShow(r), c[2] >>) /\ FALSE
===================================================================================
