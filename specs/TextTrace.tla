-------------------------------- MODULE TextTrace ---------------------------------
(* Descriptions.  What is printed of a program, a kernel set, a problem is what it    *)
(* is; what an algorithm says of its parameters is what it was last told, through     *)
(* setters, copies, archives and evolutions.  The state: the algorithms alive.       *)
EXTENDS CgpObj, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, as, n
vars == << l, as, n >>
Ev == Trace[l]
Chk(why, c) == IF c THEN TRUE ELSE PrintT(<< "REJECT", l, why, Ev >>) /\ FALSE
Is(e) == l <= Len(Trace) /\ Ev.event = e /\ l' = l + 1
\* one line says one thing; long lists may be abbreviated to their first elements
Same(k) == CASE k = "generations" -> {"Number of generations", "Maximum number of generations"}
             [] k = "mutations" -> {"Number of active mutations", "Maximum number of active mutations"}
             [] OTHER -> {k}
Found(k) == { i \in 1..Len(Ev.lines) : Ev.lines[i].k \in Same(k) }
Short(q) == Len(q) > 0 /\ q[Len(q)] = "..."
ListIs(ln, len, ok(_)) ==
    IF ~ln.l THEN FALSE
    ELSE IF Short(ln.s) THEN len > Len(ln.s) - 1 /\ \A i \in 1..(Len(ln.s) - 1) : ok(i)
    ELSE IF len = 0 THEN Len(ln.s) = 0 ELSE Len(ln.s) = len /\ \A i \in 1..len : ok(i)
Says(k, ok(_)) == Chk(<< "description", k >>, Cardinality(Found(k)) = 1 /\ \A i \in Found(k) : ok(Ev.lines[i]))
SaysInt(k, v) == Says(k, LAMBDA ln : ~ln.l /\ ln.s[1] = ToString(v))
SaysText(k, v) == Says(k, LAMBDA ln : ~ln.l /\ ln.s[1] = v)
\* six significant digits
Shown(v, d) == IF DIsFinite(v) THEN DAgrees(DBlur(v, DStr("5.1e-6")), d) ELSE ~DIsFinite(d)
SaysNum(k, v) == Says(k, LAMBDA ln : ~ln.l /\ Shown(v, ln.d[1]))
SaysInts(k, q) == Says(k, LAMBDA ln : ListIs(ln, Len(q), LAMBDA i : ln.s[i] = ToString(q[i])))
SaysTexts(k, q) == Says(k, LAMBDA ln : ListIs(ln, Len(q), LAMBDA i : ln.s[i] = q[i]))
SaysNums(k, q) == Says(k, LAMBDA ln : ListIs(ln, Len(q), LAMBDA i : Shown(q[i], ln.d[i])))

Prog ==
    /\ Is("Prog")
    /\ LET o == Ev.obj g == Ev.obj.g IN
       /\ SaysInt("Number of inputs", g.n) /\ SaysInt("Number of outputs", g.m)
       /\ SaysInt("Number of rows", g.r) /\ SaysInt("Number of columns", g.c)
       /\ SaysInt("Number of levels-back allowed", g.l) /\ SaysInts("Basis function arity", g.ar)
       /\ SaysInts("Resulting lower bounds", g.lb) /\ SaysInts("Resulting upper bounds", g.ub)
       /\ SaysInts("Current expression (encoded)", o.x)
       /\ SaysInts("Active nodes", o.an) /\ SaysInts("Active genes", o.ag)
       /\ SaysTexts("Function set", g.f)
       /\ IF Ev.kind = "plain" THEN
             /\ SaysInts("Start of the gene expressing the node", g.gi)
             /\ SaysInt("Number of ephemeral constants", Len(o.ev))
             /\ SaysTexts("Ephemeral constants names", o.es) /\ SaysNums("Ephemeral constants values", o.ev)
          ELSE SaysNums("Weights", o.w)
       /\ IF Ev.kind = "ann" THEN SaysNums("Biases", o.b) ELSE TRUE
       /\ Chk("printing changed the program", Ev.same)
    /\ n' = n + 1 /\ UNCHANGED as
Set == /\ Is("Set")
       /\ SaysTexts("set", Ev.f)
       /\ Chk("a kernel prints as its name", Ev.one = Ev.f)
       /\ n' = n + 1 /\ UNCHANGED as
Problem ==
    /\ Is("Problem")
    /\ SaysInt("Data dimension (points)", Len(Ev.pts[1])) /\ SaysInt("Data dimension (labels)", Len(Ev.ys[1]))
    /\ SaysInt("Data size", Len(Ev.pts)) /\ SaysTexts("Kernels", Ev.f) /\ SaysText("Loss", Ev.ls)
    /\ n' = n + 1 /\ UNCHANGED as

\* algorithms
Fresh == Is("Fresh") /\ as' = << >> /\ UNCHANGED n
New == Is("New") /\ as' = Append(as, [k |-> Ev.kind, gen |-> Ev.gen, mut |-> Ev.mut, ftol |-> Ev.ftol, learn |-> Ev.learn, seed |-> Ev.seed,
                                      lr |-> Ev.lr, lrmin |-> Ev.lrmin, verb |-> 0, bfe |-> FALSE]) /\ UNCHANGED n
Verb == Is("Verb") /\ as' = [as EXCEPT ![Ev.a].verb = Ev.v] /\ UNCHANGED n
Seed == Is("Seed") /\ as' = [as EXCEPT ![Ev.a].seed = Ev.v] /\ UNCHANGED n
Bfe == Is("Bfe") /\ as' = [as EXCEPT ![Ev.a].bfe = TRUE] /\ UNCHANGED n
Copy == Is("Copy") /\ as' = Append(as, as[Ev.a]) /\ UNCHANGED n
Load == Is("Load") /\ as' = [as EXCEPT ![Ev.b] = as[Ev.a]] /\ UNCHANGED n
Evolve == Is("Evolve") /\ UNCHANGED << as, n >>
YesNo(b) == IF b THEN "yes" ELSE "no"
TF(b) == IF b THEN "true" ELSE "false"
Info ==
    /\ Is("Info")
    /\ LET o == as[Ev.a] IN
       /\ SaysInt("Verbosity", o.verb) /\ Chk("verbosity", Ev.verb = o.verb)
       /\ IF o.k = "gd" THEN
             /\ SaysInt("Maximum number of iterations", o.gen)
             /\ SaysNum("Initial learning rate", o.lr) /\ SaysNum("Minimum learning rate", o.lrmin)
          ELSE
             /\ SaysInt("generations", o.gen)
             /\ SaysInt("mutations", o.mut)
             /\ SaysNum("Exit condition of the final loss (ftol)", o.ftol)
             /\ SaysInt("Seed", o.seed) /\ Chk("seed", Ev.seed = o.seed)
             /\ IF o.k \in {"es", "moes"} THEN SaysText("Learn constants?", TF(o.learn)) /\ SaysText("Using bfe", YesNo(o.bfe)) ELSE TRUE
       \* the name tells the algorithms apart
       /\ Chk("name", Ev.kind = o.k /\ Ev.name # "")
    /\ n' = n + 1 /\ UNCHANGED as
Next == Prog \/ Set \/ Problem \/ Fresh \/ New \/ Verb \/ Seed \/ Bfe \/ Copy \/ Load \/ Evolve \/ Info
Init == l = 1 /\ as = << >> /\ n = 0
Spec == Init /\ [][Next]_vars
Accepted == LET d == TLCGet("stats").diameter IN
    IF d = Len(Trace) + 1 THEN PrintT(<< "CONSUMED", Len(Trace) >>) /\ PrintT(<< "STAT", "descriptions", Len(Trace) >>)
    ELSE PrintT(<< "REJECT", d, "no step for", Trace[d] >>) /\ FALSE
===================================================================================
