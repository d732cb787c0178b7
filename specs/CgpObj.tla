--------------------------------- MODULE CgpObj ----------------------------------
(* What a program is beyond its chromosome, and what the outside can see of it: a   *)
(* record [kind, g, x, ev, es, w, b, pc] of geometry, genes, ephemeral constants and  *)
(* their names, weights, biases and phenotype correction.                           *)
EXTENDS Cgp
NoPc == [id |-> "none", k |-> Zero]
JSeq(q) == Now([i \in 1..Len(q) |-> JNum(q[i])])
\* the phenotype corrections of the drivers; raw is the uncorrected program
Corr(pc, raw(_), in) ==
    CASE pc.id = "none" -> raw(in)
      [] pc.id = "neg" -> LET r == raw(in) IN [i \in 1..Len(r) |-> JNeg(r[i])]
      [] pc.id = "addk" -> LET r == raw(in) IN [i \in 1..Len(r) |-> JAdd(r[i], JNum(pc.k))]
      [] pc.id = "mulx" -> LET r == raw(in) IN [i \in 1..Len(r) |-> JMul(r[i], in[1])]
      [] pc.id = "twice" -> LET r == raw([i \in 1..Len(in) |-> JMul(in[i], JInt(2))]) s == raw(in)
                            IN [i \in 1..Len(r) |-> JAdd(JAdd(r[i], JMul(s[i], JNum(pc.k))), in[1])]
      [] pc.id = "const" -> LET r == raw(in) IN [i \in 1..Len(r) |-> JAdd(JNum(pc.k), JInt(i - 1))]
      [] pc.id = "extra" -> Append(raw(in), JNum(pc.k))
\* weighted and neural programs evaluate without the correction (known finding of C13)
PcOf(o) == IF o.kind = "plain" THEN o.pc ELSE NoPc
NIn(o) == o.g.n - Len(o.ev)
EvalObj(o, x, ev, w, b, in) ==
    LET raw(p) == EvalCgp(o.g, x, JSeq(w), JSeq(b), p \o JSeq(ev)) IN Corr(PcOf(o), raw, in)
\* no active node has a singular value or derivative: Taylor numbers are not defined elsewhere
Regular(o, x, ev, w, b, in) ==
    LET reg(p) == LET vals == AllVals(o.g, x, JSeq(w), JSeq(b), p \o JSeq(ev)) IN \A k \in ActiveNodes(o.g, x) : JReg(vals[k + 1])
    IN reg(in) /\ (IF PcOf(o).id = "twice" THEN reg([i \in 1..Len(in) |-> JMul(in[i], JInt(2))]) ELSE TRUE)
Eval(o, in) == EvalObj(o, o.x, o.ev, o.w, o.b, in)
EvalProp(o) == IF o.pc.id # "none" THEN "C13"
               ELSE CASE o.kind = "plain" -> "C08" [] o.kind = "w" -> "C15" [] o.kind = "ann" -> "C16"
WProp(o) == IF o.kind = "ann" THEN "C16" ELSE "C15"
\* texts of a program at a point, as functions of the names
EnvOf(o, ev, w, b, p) ==
    LET ins == { << "x" \o ToString(i - 1), p[i] >> : i \in 1..Len(p) }
        eph == { << o.es[i], ev[i] >> : i \in 1..Len(ev) }
        ws == UNION { { << "w" \o ToString(k) \o "_" \o ToString(j), w[WIdx(o.g, k, j) + 1] >> : j \in 0..(Arity(o.g, k) - 1) }
                      : k \in IF w = << >> THEN {} ELSE o.g.n..(Nodes(o.g) - 1) }
        bs == { << "b" \o ToString(k), b[BIdx(o.g, k) + 1] >> : k \in IF b = << >> THEN {} ELSE o.g.n..(Nodes(o.g) - 1) }
        all == ins \cup eph \cup ws \cup bs
    IN [n \in { e[1] : e \in all } |-> JNum((CHOOSE e \in all : e[1] = n)[2])]
\* protected division prints as the quotient: compare only where the quotient is finite
FormulaVals(o, x, ev, w, b, in) ==
    EvalCgp([o.g EXCEPT !.f = [i \in 1..Len(o.g.f) |-> IF o.g.f[i] = "pdiv" THEN "div" ELSE o.g.f[i]]], x, JSeq(w), JSeq(b), in \o JSeq(ev))
TextOk(o, x, ev, w, b, p, t) ==
    LET env == EnvOf(o, ev, w, b, p)
        want == FormulaVals(o, x, ev, w, b, JSeq(p))
    IN /\ Len(t) = o.g.m
       /\ \A i \in 1..Len(t) :
            LET tr == FParse(t[i])
            IN t[i] # "" =>
               /\ FOk(tr)
               /\ FVars(tr) \subseteq DOMAIN env
               /\ LET v == FEval(tr, env).v IN
                  (DIsFinite(want[i].v) /\ DConclusive(want[i].v) /\ DConclusive(v)) => DAgrees(DBlur(v, DStr("1e-13")), DExactV(want[i].v))

SameVals(r, o) == Len(r) = Len(o) /\ \A i \in 1..Len(o) : DAgrees(r[i].v, o[i])
LossOf(o, w, b, pts, ys, ls) ==
    JMean([i \in 1..Len(pts) |-> Loss1(ls, EvalObj(o, o.x, o.ev, w, b, JSeq(pts[i])), JSeq(ys[i]))])
===================================================================================
