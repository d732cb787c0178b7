---------------------------------- MODULE PyTrace ----------------------------------
(* The Python layer: networks encoded, programs simplified and drawn, against the     *)
(* programs they are about.                                                          *)
EXTENDS CgpObj, Encode, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
Prop == IOEnv.PROP
VARIABLES l, seen
vars == << l, seen >>
Ev == Trace[l]
Chk(p, why, c) == IF p # Prop THEN TRUE ELSE IF c THEN TRUE ELSE PrintT(<< "REJECT", l, why, Ev >>) /\ FALSE
Is(e) == l <= Len(Trace) /\ Ev.event = e /\ l' = l + 1
Count(c) == seen' = IF c THEN seen + 1 ELSE seen
AnnKernels == {"tanh", "sig", "ReLu", "ELU", "ISRU", "sin_nu", "cos_nu", "gaussian_nu", "sum", "inv_sum", "abs", "step"}
GeoOf(g) == Geo(g.n, g.m, g.r, g.c, g.l, g.ar, g.f)
Obj(kind, p) == [kind |-> kind, g |-> GeoOf(p.g), x |-> p.x, ev |-> p.ev, es |-> p.es, w |-> p.w, b |-> p.b, pc |-> NoPc]

----------------------------------------------------------------------------------
TEncode ==
    /\ Is("Encode")
    /\ LET q == [n |-> Ev.n, m |-> Ev.m, layers |-> Ev.layers, ks |-> Ev.ks, lb |-> Ev.lb]
           good == GoodReq(q, AnnKernels)
       IN /\ Count(good)
          /\ Chk("C29", "raised, or did not raise", Ev.threw = (IF good THEN "" ELSE "ValueError"))
          /\ Chk("C29", "arguments changed", Ev.kept)
          /\ IF ~good \/ Prop # "C29" \/ Ev.threw # "" THEN TRUE ELSE
             LET o == Obj("ann", Ev.res)
             IN /\ Chk("C29", << "not a neural program", Ev.kind >>, Ev.kind = "ann")
                /\ Chk("C29", "not the network asked for", IsNetwork(q, o.g, o.x))
                /\ Chk("C29", "weights acting", ActW(o.g, o.x) = DenseW(q, NLay(q)) /\ ActB(o.g, o.x) = DenseB(q, NLay(q)))
                /\ Chk("C29", "weights and biases of a new network", /\ \A i \in 1..Len(Ev.res0.w) : DEq(Ev.res0.w[i], One)
                                                                     /\ \A i \in 1..Len(Ev.res0.b) : DEq(Ev.res0.b[i], Zero)
                                                                     /\ Ev.res0.x = o.x)
                /\ Chk("C29", << "value", [i \in 1..Len(o.b) |-> DShow(o.b[i])] >>, SameVals(EvalObj(o, o.x, << >>, o.w, o.b, JSeq(Ev.res.p)), Ev.res.o))

----------------------------------------------------------------------------------
(* Simplified expressions: their value at points. Numbers in the text are rounded.   *)
Extra == {"Abs", "sinh", "cosh", "tan", "cot", "sec", "csc", "coth", "sign", "exp_polar"}
Consts == {"E", "pi"}
RECURSIVE SCalls(_)
SCalls(t) ==
    CASE t[1] \in {"num", "var", "err"} -> {}
      [] t[1] = "neg" -> SCalls(t[2])
      [] t[1] = "call" -> {t[2]} \cup UNION { SCalls(t[i]) : i \in 3..Len(t) }
      [] OTHER -> SCalls(t[2]) \cup SCalls(t[3])
One1(f, v) == Apply(f, << JNum(v) >>).v
RECURSIVE SEval(_, _, _)
SEval(t, env, fuzzy) ==
    CASE t[1] = "num" -> IF fuzzy THEN DBlur(t[2], DStr("1e-14")) ELSE t[2]
      [] t[1] = "var" -> IF t[2] = "E" /\ t[2] \notin DOMAIN env THEN DEuler ELSE IF t[2] = "pi" /\ t[2] \notin DOMAIN env THEN DPi ELSE env[t[2]]
      [] t[1] = "neg" -> DNeg(SEval(t[2], env, fuzzy))
      [] t[1] = "+" -> DAdd(SEval(t[2], env, fuzzy), SEval(t[3], env, fuzzy))
      [] t[1] = "-" -> DSub(SEval(t[2], env, fuzzy), SEval(t[3], env, fuzzy))
      [] t[1] = "*" -> DMul(SEval(t[2], env, fuzzy), SEval(t[3], env, fuzzy))
      [] t[1] = "/" -> DDiv(SEval(t[2], env, fuzzy), SEval(t[3], env, fuzzy))
      [] t[1] = "**" -> DPow(SEval(t[2], env, fuzzy), SEval(t[3], env, FALSE))
      [] t[1] = "call" ->
           LET a == SEval(t[3], env, fuzzy)
               ex == DExp(a) em == DExp(DNeg(a))
               f == t[2]
           IN CASE f \in {"sin", "cos", "log", "exp", "sqrt", "tanh"} -> One1(f, a)
                [] f \in {"Abs", "abs"} -> DAbs(a)
                [] f = "sig" -> JSig(JNum(a)).v
                [] f = "ReLu" -> JRelu(JNum(a)).v
                [] f = "sinh" -> DDiv(DSub(ex, em), DInt(2))
                [] f = "cosh" -> DDiv(DAdd(ex, em), DInt(2))
                [] f = "coth" -> DDiv(DAdd(ex, em), DSub(ex, em))
                [] f = "tan" -> DDiv(DSin(a), DCos(a))
                [] f = "cot" -> DDiv(DCos(a), DSin(a))
                [] f = "sec" -> DDiv(One, DCos(a))
                [] f = "csc" -> DDiv(One, DSin(a))
Callable == {"sin", "cos", "log", "exp", "sqrt", "tanh", "Abs", "abs", "sig", "ReLu", "sinh", "cosh", "coth", "tan", "cot", "sec", "csc"}
\* texts with such names stand for no real number, or for none that is compared
Beyond == {"I", "zoo", "nan", "oo"}
\* the values the names stand for: inputs (the last of them replaced by the constants given), weights unless replaced
SEnv(o, p) ==
    LET k == Len(Ev.syms) - Len(Ev.erc)
        ins == { << Ev.syms[i], p[i] >> : i \in 1..k }
        ws == UNION { { << "w" \o ToString(j) \o "_" \o ToString(i), o.w[WIdx(o.g, j, i) + 1] >> : i \in 0..(Arity(o.g, j) - 1) }
                      : j \in IF o.w = << >> \/ Ev.sub THEN {} ELSE o.g.n..(Nodes(o.g) - 1) }
        all == ins \cup ws
    IN [n \in { e[1] : e \in all } |-> (CHOOSE e \in all : e[1] = n)[2]]
SPoint(p) == LET k == Len(p) - Len(Ev.erc) IN [i \in 1..Len(p) |-> IF i <= k THEN p[i] ELSE Ev.erc[i - k]]
\* 0: not comparable, 1: equal, 2: different
SCompare(o, i, p) ==
    LET t == FParse(Ev.res[i])
        env == SEnv(o, p)
        want == FormulaVals(o, o.x, << >>, o.w, << >>, JSeq(SPoint(p)))[i].v
    IN IF t[1] = "err" \/ ~(SCalls(t) \subseteq Callable) \/ FVars(t) \cap Beyond # {} THEN 0
       ELSE LET got == SEval(t, env, TRUE)
            IN IF ~DIsFinite(want) \/ ~DConclusive(want) \/ ~DIsFinite(got) \/ ~DConclusive(got) THEN 0
               ELSE IF DAgrees(DBlur(got, DStr("1e-9")), DExactV(want)) THEN 1 ELSE 2
TSimplify ==
    /\ Is("Simplify")
    /\ LET o == Obj(Ev.kind, Ev.prog)
           good == Len(Ev.syms) = o.g.n /\ Len(Ev.erc) <= o.g.n
       IN IF Prop # "C30" THEN UNCHANGED seen ELSE
          /\ Chk("C30", "raised, or did not raise", Ev.threw = (IF good THEN "" ELSE "ValueError"))
          /\ Chk("C30", "arguments or program changed", Ev.kept /\ Ev.before)
          /\ IF ~good \/ Ev.threw # "" THEN UNCHANGED seen ELSE
             /\ Chk("C30", "number of expressions", Len(Ev.res) = o.g.m)
             /\ LET cmp == [i \in 1..Len(Ev.res) |-> Now([k \in 1..Len(Ev.pts) |-> SCompare(o, i, Ev.pts[k])])]
                IN /\ \A i \in 1..Len(Ev.res) :
                        LET t == FParse(Ev.res[i])
                        IN IF t[1] = "err" THEN TRUE ELSE
                           Chk("C30", << "names that should have been replaced, or are unknown", Ev.res[i] >>,
                               FVars(t) \subseteq DOMAIN SEnv(o, Ev.pts[1]) \cup Consts \cup Beyond)
                   /\ \A i \in 1..Len(Ev.res) : Chk("C30", << "value of the simplified expression", i, Ev.res[i], [k \in 1..Len(Ev.pts) |-> [j \in 1..Len(Ev.pts[k]) |-> DShow(Ev.pts[k][j])]] >>, \A k \in 1..Len(Ev.pts) : cmp[i][k] # 2)
                   /\ Count(\E i \in 1..Len(Ev.res) : \E k \in 1..Len(Ev.pts) : cmp[i][k] = 1)

----------------------------------------------------------------------------------
(* Drawings *)
Nm(k) == "n" \o ToString(k)
Times(s, e) == Cardinality({ i \in 1..Len(s) : s[i] = e })
SameBag(s, t) == Len(s) = Len(t) /\ \A i \in 1..Len(s) : Times(s, s[i]) = Times(t, s[i])
OpLabel(f) == CASE f = "sum" -> "+" [] f = "diff" -> "-" [] f = "mul" -> "*" [] f \in {"div", "pdiv"} -> "/" [] OTHER -> f
FnNodes(g) == [i \in 1..(g.r * g.c) |-> g.n + i - 1]
TDraw ==
    /\ Is("Draw")
    /\ LET o == Obj("plain", Ev.prog)
           g == o.g
           good == Len(Ev.syms) \in {0, g.n}
       IN IF Prop # "C30" THEN UNCHANGED seen ELSE
          /\ Chk("C30", "raised, or did not raise", Ev.threw = (IF good THEN "" ELSE "ValueError"))
          /\ Chk("C30", "arguments or program changed", Ev.kept /\ Ev.same)
          /\ Count(good)
          /\ IF ~good \/ Ev.threw # "" THEN TRUE ELSE
             LET act == ActiveNodes(g, o.x)
                 shown(k) == k \in act \/ Ev.inactive
                 lab(k, j) == IF Ev.weights THEN "<w<sub>" \o ToString(k) \o "," \o ToString(j - 1) \o "</sub>>" ELSE ""
                 vis == Now(SelectSeq(Ev.edges, LAMBDA e : e[4] # "invis"))
                 outNames == { Nm(Nodes(g) + i - 1) : i \in 1..g.m }
                 got == Now([i \in 1..Len(vis) |-> IF vis[i][2] \in outNames THEN << vis[i][1], vis[i][2] >>
                                               ELSE << vis[i][1], vis[i][2], vis[i][3], vis[i][4] = "solid" >>])
                 want == FoldLeft(LAMBDA s, k : IF shown(k) THEN s \o [j \in 1..Arity(g, k) |-> << Nm(Conn(g, o.x, k, j)), Nm(k), lab(k, j), k \in act >>] ELSE s,
                                  << >>, FnNodes(g))
                         \o [i \in 1..g.m |-> << Nm(OutNode(g, o.x, i)), Nm(Nodes(g) + i - 1) >>]
                 attr(k) == LET s == SelectSeq(Ev.nodes, LAMBDA n : n[1] = Nm(k)) IN IF Len(s) = 1 THEN s[1] ELSE << Nm(k), "?", "?" >>
             IN /\ Chk("C30", << "edges", "want", want, "drawn", got >>, SameBag(got, want))
                /\ Chk("C30", "nodes", Len(Ev.nodes) = Nodes(g) + g.m)
                /\ \A k \in 0..(g.n - 1) : Chk("C30", << "input node", attr(k) >>,
                       attr(k)[2] = (IF Len(Ev.syms) = 0 THEN "<x<sub>" \o ToString(k) \o "</sub>>" ELSE Ev.syms[k + 1]) /\ attr(k)[3] # "invis")
                /\ \A i \in 0..(g.m - 1) : Chk("C30", << "output node", attr(Nodes(g) + i) >>,
                       attr(Nodes(g) + i)[2] = "<o<sub>" \o ToString(i) \o "</sub>>" /\ attr(Nodes(g) + i)[3] # "invis")
                /\ \A k \in g.n..(Nodes(g) - 1) : Chk("C30", << "function node", attr(k) >>,
                       IF ~shown(k) THEN attr(k)[3] = "invis"
                       ELSE attr(k)[2] = OpLabel(g.f[FGene(g, o.x, k) + 1]) /\ (attr(k)[3] = "solid") = (k \in act) /\ attr(k)[3] # "invis")
\* a network drawn as circles and lines: columns of circles from the inputs on the left to the outputs on the right, rows of a
\* column from the top (inputs: from the bottom)
TNet ==
    /\ Is("NetDraw")
    /\ LET o == Obj("ann", Ev.prog)
           g == o.g
       IN IF Prop # "C30" THEN UNCHANGED seen ELSE
          /\ Chk("C30", "raised", Ev.threw = "")
          /\ Chk("C30", "program changed, or drawn elsewhere", Ev.same /\ Ev.given)
          /\ Count(TRUE)
          /\ IF Ev.threw # "" THEN TRUE ELSE
             LET cs == { << Ev.circles[i][1], Ev.circles[i][2] >> : i \in 1..Len(Ev.circles) }
                 xs == Sorted({ c[1] : c \in cs })
                 col(k) == { c \in cs : c[1] = xs[k] }
                 up(k) == SetToSortSeq(col(k), LAMBDA a, b : a[2] < b[2])
                 down(k) == SetToSortSeq(col(k), LAMBDA a, b : a[2] > b[2])
                 shape == /\ Len(xs) = g.c + 2
                          /\ Cardinality(col(1)) = g.n /\ Cardinality(col(g.c + 2)) = g.m
                          /\ \A k \in 2..(g.c + 1) : Cardinality(col(k)) = g.r
                 pos(k) == IF k < g.n THEN up(1)[k + 1]
                           ELSE IF k < Nodes(g) THEN down(Col(g, k) + 2)[((k - g.n) % g.r) + 1]
                           ELSE down(g.c + 2)[k - Nodes(g) + 1]
             IN /\ Chk("C30", << "circles", cs >>, shape)
                /\ LET P == Now([k \in 1..(Nodes(g) + g.m) |-> pos(k - 1)])
                       act == ActiveNodes(g, o.x)
                       seg(a, b) == IF a[1] < b[1] THEN << a[1], a[2], b[1], b[2] >> ELSE << b[1], b[2], a[1], a[2] >>
                       want == IF ~Ev.conns THEN << >> ELSE
                               FoldLeft(LAMBDA s, k : IF k \in act \/ Ev.inactive
                                                      THEN s \o [j \in 1..Arity(g, k) |-> seg(P[Conn(g, o.x, k, j) + 1], P[k + 1])] ELSE s, << >>, FnNodes(g))
                               \o [i \in 1..g.m |-> seg(P[OutNode(g, o.x, i) + 1], P[Nodes(g) + i])]
                       got == Now([i \in 1..Len(Ev.lines) |-> LET e == Ev.lines[i] IN seg(<< e[1], e[2] >>, << e[3], e[4] >>)])
                   IN Chk("C30", "transparency", Ev.alphas) /\ Chk("C30", << "lines", "want", want, "drawn", got >>, SameBag(got, want))
----------------------------------------------------------------------------------
TInit == l = 1 /\ seen = 0
TNext == (TEncode \/ TSimplify \/ TDraw \/ TNet) /\ (IF l' = Len(Trace) + 1 THEN PrintT(<< "STAT", "decided", seen' >>) ELSE TRUE)
TSpec == TInit /\ [][TNext]_vars
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
===================================================================================
