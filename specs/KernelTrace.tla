------------------------------- MODULE KernelTrace -------------------------------
(* Histories of the real kernels and kernel sets against Kernel's actions, and the   *)
(* values and texts of the basis functions against Ops (C03, C04, C05).              *)
EXTENDS Kernel, Ops, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
Prop == IOEnv.PROP
VARIABLE l
Ev == Trace[l]
Chk(p, why, c) == IF p # Prop THEN TRUE ELSE IF c THEN TRUE ELSE PrintT(<< "REJECT", l, why, Ev >>) /\ FALSE
TInit == l = 1 /\ Init
Is(e) == l <= Len(Trace) /\ Ev.event = e /\ l' = l + 1

\* user-defined callable with parameter k: k + 1 x1 + 2 x2 + ...
Val(f, in) == IF f.b = "cust"
              THEN FoldLeft(LAMBDA a, i : JAdd(a, JMul(JInt(i), in[i])), JInt(f.k), [i \in 1..Len(in) |-> i])
              ELSE Apply(f.b, in)
Form(f, in) == IF f.b = "cust" THEN Val(f, in) ELSE Formula(f.b, in)
VarNames == << "xa", "xb", "xc" >>
Env(p) == [n \in {"xa", "xb", "xc"} |-> JNum(p[CHOOSE i \in 1..3 : VarNames[i] = n])]
In(p) == [i \in 1..Len(p) |-> JNum(p[i])]
SeenK(k, o) ==
    /\ Chk("C04", << "name", k, o >>, o.name = k.name /\ o.str = k.name)
    /\ Chk("C03", << "thread-safety level", k, o >>, o.ts = KLevel(k))
    /\ Chk("C04", << "numeric value", k, o >>, \A i \in 1..Len(o.p) : DAgrees(Val(k.num, In(o.p[i])).v, o.v[i]))
    /\ Chk("C04", << "symbolic form", k, o >>,
           \A i \in 1..Len(o.p) :
              LET t == FParse(o.t[i])
                  want == Form(k.sym, In(o.p[i])).v
              IN /\ FOk(t)
                 /\ FVars(t) \subseteq {"xa", "xb", "xc"}
                 /\ (DIsFinite(want) /\ DConclusive(want)) =>
                       DAgrees(DBlur(FEval(t, Env(o.p[i])).v, DStr("1e-13")), DExactV(want)))
SeenAll ==
    /\ \A a \in KSlots : /\ Chk("C04", "kernel alive", (Ev.ks[a].s = "ok") = (ks'[a].s = "ok"))
                         /\ (Ev.ks[a].s = "ok" /\ ks'[a].s = "ok") => SeenK(ks'[a], Ev.ks[a])
    /\ \A a \in SSlots : /\ Chk("C04", "set alive", (Ev.ss[a].s = "ok") = (ss'[a].s = "ok"))
                         /\ (Ev.ss[a].s = "ok" /\ ss'[a].s = "ok") =>
                              /\ Chk("C04", << "number of kernels", ss'[a], Ev.ss[a].q >>, Len(Ev.ss[a].q) = Len(ss'[a].q))
                              /\ Len(Ev.ss[a].q) = Len(ss'[a].q) =>
                                   \A i \in 1..Len(ss'[a].q) : SeenK(ss'[a].q[i], Ev.ss[a].q[i])
TReset == Is("Reset") /\ ks' = [a \in KSlots |-> Dead] /\ ss' = [a \in SSlots |-> Dead]
TOp == /\ Is("Op")
       /\ LET a == Ev.a b == Ev.b IN
          CASE Ev.op = "KMake" -> KMake(a, Ev.num, Ev.sym, Ev.name)
            [] Ev.op = "KDestroy" -> KDestroy(a)
            [] Ev.op = "KCopy" -> KCopy(a, b)
            [] Ev.op = "KMove" -> KMove(a, b)
            [] Ev.op = "KAssign" -> KAssign(a, b)
            [] Ev.op = "KMoveAssign" -> KMoveAssign(a, b)
            [] Ev.op = "KSaveLoad" -> KSaveLoad(a, b)
            [] Ev.op = "SMake" -> SMake(a, Ev.names)
            [] Ev.op = "SPush" -> SPush(a, Ev.name)
            [] Ev.op = "SPushK" -> SPushK(a, b)
            [] Ev.op = "SClear" -> SClear(a)
            [] Ev.op = "SGet" -> SGet(a, b, Ev.i)
            [] Ev.op = "SCopy" -> SCopy(a, b)
            [] Ev.op = "SAssign" -> SAssign(a, b)
            [] Ev.op = "SMove" -> SMove(a, b)
            [] Ev.op = "SSaveLoad" -> SSaveLoad(a, b)
            [] Ev.op = "SDestroy" -> SDestroy(a)
       /\ Chk("C04", "raised, or did not raise",
              Ev.threw = CASE Ev.op = "SPush" -> Ev.name \notin Names
                           [] Ev.op = "SMake" -> \E i \in 1..Len(Ev.names) : Ev.names[i] \notin Names
                           [] OTHER -> FALSE)
       /\ SeenAll
\* one numeric evaluation: inputs, number nv of leading inputs that are Taylor variables, outputs
TNum == /\ Is("Num") /\ UNCHANGED vars
        /\ LET in == [i \in 1..Len(Ev.in) |-> IF i <= Ev.nv THEN JVar(Ev.in[i], i, Ev.nv) ELSE JConst(Ev.in[i], Ev.nv)]
               r == Apply(Ev.name, in)
           IN Chk("C05", << "value of a basis function", Ev.name, DShow(r.v), DShow(Ev.v) >>, JAgrees(r, Ev.v, Ev.g, Ev.h))
\* one symbolic evaluation: texts of the arguments and of the result, values of the variables
TSym == /\ Is("Sym") /\ UNCHANGED vars
        /\ LET env == [n \in {"xa", "xb", "xc"} |-> JNum(Ev.env[CHOOSE i \in 1..3 : VarNames[i] = n])]
               args == [i \in 1..Len(Ev.args) |-> FEval(FParse(Ev.args[i]), env)]
               t == FParse(Ev.text)
               m == FEval(t, env)
               r == Formula(Ev.name, args)
           IN Chk("C05", << "printed form", Ev.name, Ev.args, Ev.text >>,
                  FOk(t) /\ FVars(t) \subseteq {"xa", "xb", "xc"}
                  /\ (DConclusive(r.v) /\ DConclusive(m.v) => DAgrees(DBlur(r.v, DStr("1e-13")), DExactV(m.v))))
TNext == TReset \/ TOp \/ TNum \/ TSym
TSpec == TInit /\ [][TNext]_<< vars, l >>
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
Dbls == Builtin
Gduals == Builtin \ {"pdiv"}
===================================================================================
