----------------------------------- MODULE Ops -----------------------------------
(* The basis functions of dcgp as formulas over IEEE doubles, with exact first and  *)
(* second derivatives carried along (jets), and the meaning of printed formulas.    *)
(*                                                                                  *)
(* A jet [v, g, h] is a value, its partial derivatives and its second derivatives   *)
(* with respect to k chosen variables; with k = 0 (g = h = << >>) it is a number,   *)
(* with h = << >> it carries first derivatives only.                                *)
EXTENDS Dbl, Integers, Sequences, SequencesExt, TLC
\* the same sequence, computed once (TLC would compute an entry of a function each time it is asked for)
Now(s) == << >> \o s

Zero == DInt(0)
One == DInt(1)
LOCAL T1(k, f(_)) == Now([i \in 1..k |-> f(i)])
LOCAL T2(k, f(_, _)) == Now([i \in 1..k |-> Now([j \in 1..k |-> f(i, j)])])
JNum(v) == [v |-> v, g |-> << >>, h |-> << >>]
LOCAL JConstH(v, k, kh) == [v |-> v, g |-> T1(k, LAMBDA i : Zero), h |-> T2(kh, LAMBDA i, j : Zero)]
JConst(v, k) == JConstH(v, k, k)
JVar1(v, i, k) == [v |-> v, g |-> T1(k, LAMBDA j : IF i = j THEN One ELSE Zero), h |-> << >>]
JVar(v, i, k) == [JVar1(v, i, k) EXCEPT !.h = T2(k, LAMBDA a, b : Zero)]
JInt(n) == JNum(DInt(n))
LOCAL K(a) == Len(a.g)
LOCAL MaxK(a, b) == IF Len(a.g) > Len(b.g) THEN Len(a.g) ELSE Len(b.g)
LOCAL MaxH(a, b) == IF Len(a.h) > Len(b.h) THEN Len(a.h) ELSE Len(b.h)
LOCAL Lift(a, k, kh) == IF Len(a.g) = k THEN a ELSE JConstH(a.v, k, kh)

JAdd(x, y) ==
    IF K(x) = 0 /\ K(y) = 0 THEN JNum(DAdd(x.v, y.v)) ELSE
    LET k == MaxK(x, y) kh == MaxH(x, y) a == Lift(x, k, kh) b == Lift(y, k, kh)
    IN [v |-> DAdd(a.v, b.v), g |-> T1(k, LAMBDA i : DAdd(a.g[i], b.g[i])), h |-> T2(kh, LAMBDA i, j : DAdd(a.h[i][j], b.h[i][j]))]
JNeg(x) == [v |-> DNeg(x.v), g |-> T1(K(x), LAMBDA i : DNeg(x.g[i])), h |-> T2(Len(x.h), LAMBDA i, j : DNeg(x.h[i][j]))]
JSub(x, y) == JAdd(x, JNeg(y))
\* f(x) given f, f', f'' at x.v
JUn(x, f, f1, f2) ==
    [v |-> f, g |-> T1(K(x), LAMBDA i : DMul(f1, x.g[i])),
     h |-> T2(Len(x.h), LAMBDA i, j : DAdd(DMul(f2, DMul(x.g[i], x.g[j])), DMul(f1, x.h[i][j])))]
JMul(x, y) ==
    IF K(x) = 0 /\ K(y) = 0 THEN JNum(DMul(x.v, y.v)) ELSE
    LET k == MaxK(x, y) kh == MaxH(x, y) a == Lift(x, k, kh) b == Lift(y, k, kh)
    IN [v |-> DMul(a.v, b.v),
        g |-> T1(k, LAMBDA i : DAdd(DMul(a.g[i], b.v), DMul(a.v, b.g[i]))),
        h |-> T2(kh, LAMBDA i, j :
                DAdd(DAdd(DMul(a.h[i][j], b.v), DMul(a.v, b.h[i][j])),
                     DAdd(DMul(a.g[i], b.g[j]), DMul(a.g[j], b.g[i]))))]
JInv(x) == IF K(x) = 0 THEN JNum(DDiv(One, x.v)) ELSE
    LET i1 == DDiv(One, x.v) i2 == DMul(i1, i1)
    IN JUn(x, i1, DNeg(i2), DMul(DInt(2), DMul(i2, i1)))
JDiv(x, y) == IF K(x) = 0 /\ K(y) = 0 THEN JNum(DDiv(x.v, y.v)) ELSE
    LET q == JMul(x, JInv(y)) IN [q EXCEPT !.v = DDiv(x.v, y.v)]
JExp(x) == LET e == DExp(x.v) IN JUn(x, e, e, e)
JLog(x) == IF K(x) = 0 THEN JNum(DLog(x.v)) ELSE
    LET i == DDiv(One, x.v) IN JUn(x, DLog(x.v), i, DNeg(DMul(i, i)))
JSin(x) == LET s == DSin(x.v) IN JUn(x, s, DCos(x.v), DNeg(s))
JCos(x) == LET c == DCos(x.v) IN JUn(x, c, DNeg(DSin(x.v)), DNeg(c))
JTanh(x) == LET t == DTanh(x.v) d == DSub(One, DMul(t, t))
            IN JUn(x, t, d, DMul(DInt(-2), DMul(t, d)))
JSqrt(x) == IF K(x) = 0 THEN JNum(DSqrt(x.v)) ELSE
    LET s == DSqrt(x.v) d == DDiv(One, DMul(DInt(2), s))
    IN JUn(x, s, d, DNeg(DDiv(d, DMul(DInt(2), x.v))))
JSel(c, x, y) ==    \* x when c > 0, else y
    LET k == MaxK(x, y) kh == MaxH(x, y) a == Lift(x, k, kh) b == Lift(y, k, kh)
    IN [v |-> DIfPos(c, a.v, b.v), g |-> T1(k, LAMBDA i : DIfPos(c, a.g[i], b.g[i])),
        h |-> T2(kh, LAMBDA i, j : DIfPos(c, a.h[i][j], b.h[i][j]))]
JAbs(x) == IF K(x) = 0 THEN JNum(DAbs(x.v)) ELSE JSel(DNeg(x.v), JNeg(x), x)
JPow2(x) == JMul(x, x)
JSig(x) == JInv(JAdd(JInt(1), JExp(JNeg(x))))
JRelu(x) == JSel(DNeg(x.v), JNum(Zero), x)
JElu(x) == JSel(DNeg(x.v), JSub(JExp(x), JInt(1)), x)
JIsru(x) == JDiv(x, JSqrt(JAdd(JInt(1), JMul(x, x))))
JStep(x) == LET z == JConstH(Zero, K(x), Len(x.h)) IN JSel(DNeg(x.v), z, [z EXCEPT !.v = One])
JGauss(x) == JExp(JNeg(JMul(x, x)))

JSum(in) == FoldLeft(JAdd, in[1], Tail(in))
JProd(in) == FoldLeft(JMul, in[1], Tail(in))

Unary == {"sin", "cos", "log", "exp", "gaussian", "sqrt", "psqrt"}
NAry == {"sum", "diff", "mul", "div", "pdiv", "sig", "tanh", "ReLu", "ELU", "ISRU", "sin_nu", "cos_nu",
         "gaussian_nu", "inv_sum", "abs", "step"}
Builtin == Unary \cup NAry
\* kernels of the drivers, to tell arguments apart: w1 = 2 x1 - 3 x2 + 5 x3 - 7 x4 ..., and a product of shifts
Custom == {"weigh", "shift"}
LOCAL WeighC == << 2, -3, 5, -7, 11, -13 >>

Apply(name, in) ==
    CASE name = "sum" -> JSum(in)
      [] name = "diff" -> FoldLeft(JSub, in[1], Tail(in))
      [] name = "mul" -> JProd(in)
      [] name = "div" -> FoldLeft(JDiv, in[1], Tail(in))
      [] name = "pdiv" -> JNum(DIfFinite(DDiv(in[1].v, JProd(Tail(in)).v), One))
      [] name = "sig" -> JSig(JSum(in))
      [] name = "tanh" -> JTanh(JSum(in))
      [] name = "ReLu" -> JRelu(JSum(in))
      [] name = "ELU" -> JElu(JSum(in))
      [] name = "ISRU" -> JIsru(JSum(in))
      [] name = "sin_nu" -> JSin(JSum(in))
      [] name = "cos_nu" -> JCos(JSum(in))
      [] name = "gaussian_nu" -> JGauss(JSum(in))
      [] name = "inv_sum" -> JNeg(JSum(in))
      [] name = "abs" -> JAbs(JSum(in))
      [] name = "step" -> JStep(JSum(in))
      [] name = "sin" -> JSin(in[1])
      [] name = "cos" -> JCos(in[1])
      [] name = "log" -> JLog(in[1])
      [] name = "exp" -> JExp(in[1])
      [] name = "gaussian" -> JGauss(in[1])
      [] name = "sqrt" -> JSqrt(in[1])
      [] name = "psqrt" -> JSqrt(JAbs(in[1]))
      [] name = "weigh" -> FoldLeft(LAMBDA a, i : JAdd(a, JMul(JInt(WeighC[i]), in[i])), JInt(1), [i \in 1..Len(in) |-> i])
      [] name = "shift" -> FoldLeft(LAMBDA a, i : JMul(a, JAdd(in[i], JInt(i))), JInt(1), [i \in 1..Len(in) |-> i])

\* protected division prints as the quotient
Formula(name, in) == IF name = "pdiv" THEN FoldLeft(JDiv, in[1], Tail(in)) ELSE Apply(name, in)

----------------------------------------------------------------------------------
(* Meaning of a parsed formula; env maps variable names to jets. *)
RECURSIVE FEval(_, _)
FEval(t, env) ==
    CASE t[1] = "num" -> JNum(t[2])
      [] t[1] = "var" -> env[t[2]]
      [] t[1] = "neg" -> JNeg(FEval(t[2], env))
      [] t[1] = "+" -> JAdd(FEval(t[2], env), FEval(t[3], env))
      [] t[1] = "-" -> JSub(FEval(t[2], env), FEval(t[3], env))
      [] t[1] = "*" -> JMul(FEval(t[2], env), FEval(t[3], env))
      [] t[1] = "/" -> JDiv(FEval(t[2], env), FEval(t[3], env))
      [] t[1] = "**" -> IF t[3] = << "num", DInt(2) >> THEN JPow2(FEval(t[2], env))
                        ELSE JNum(DPow(FEval(t[2], env).v, FEval(t[3], env).v))
      [] t[1] = "call" ->
           LET a == [i \in 1..(Len(t) - 2) |-> FEval(t[i + 2], env)]
               f == t[2]
           IN CASE f \in {"sin", "cos", "log", "exp", "sqrt", "tanh"} -> Apply(f, a)
                [] f = "abs" -> JAbs(a[1])
                [] f = "sig" -> JSig(a[1])
                [] f = "ReLu" -> JRelu(a[1])
                [] f = "ELU" -> JElu(a[1])
                [] f = "ISRU" -> JIsru(a[1])
                [] f = "step" -> JStep(a[1])
                [] f \in Custom -> Apply(f, a)
RECURSIVE FVars(_)
FVars(t) ==
    CASE t[1] = "num" -> {}
      [] t[1] = "var" -> {t[2]}
      [] t[1] = "neg" -> FVars(t[2])
      [] t[1] = "call" -> UNION { FVars(t[i]) : i \in 3..Len(t) }
      [] t[1] = "err" -> {"?"}
      [] OTHER -> FVars(t[2]) \cup FVars(t[3])
KnownCalls == {"sin", "cos", "log", "exp", "sqrt", "tanh", "abs", "sig", "ReLu", "ELU", "ISRU", "step"} \cup Custom
RECURSIVE FOk(_)
FOk(t) ==
    CASE t[1] = "num" -> TRUE
      [] t[1] = "var" -> TRUE
      [] t[1] = "err" -> FALSE
      [] t[1] = "neg" -> FOk(t[2])
      [] t[1] = "call" -> t[2] \in KnownCalls /\ (t[2] \notin Custom => Len(t) = 3) /\ \A i \in 3..Len(t) : FOk(t[i])
      [] OTHER -> FOk(t[2]) /\ FOk(t[3])
\* does the text denote the value o in env (a function on variable names)?
Denotes(text, env, o) ==
    LET t == FParse(text)
    IN FOk(t) /\ FVars(t) \subseteq DOMAIN env /\ DAgrees(FEval(t, env).v, o)
\* finite with finite derivatives
JReg(x) == DIsFinite(x.v) /\ (\A i \in 1..Len(x.g) : DIsFinite(x.g[i])) /\ \A i \in 1..Len(x.h) : \A j \in 1..Len(x.h) : DIsFinite(x.h[i][j])
JAgrees(x, v, g, h) ==    \* observed value, gradient, Hessian (upper triangle given as full matrix)
    /\ DAgrees(x.v, v)
    /\ \A i \in 1..Len(g) : DAgrees(Lift(x, Len(g), Len(h)).g[i], g[i])
    /\ \A i \in 1..Len(h) : \A j \in 1..Len(h) : DAgrees(Lift(x, Len(h), Len(h)).h[i][j], h[i][j])
===================================================================================
