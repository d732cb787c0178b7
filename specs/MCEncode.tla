--------------------------------- MODULE MCEncode ---------------------------------
(* The encoder as a machine: requests of small size, an arbitrary program to start    *)
(* from, neurons written one after the other, then the outputs.                      *)
EXTENDS Encode, Json
CONSTANTS N, BROKEN, EMIT
VARIABLES q, g, x, todo, st
vars == << q, g, x, todo, st >>
Kn == {"tanh", "sig"}
Seqs(S, k) == UNION { [1..j -> S] : j \in 0..k }
Reqs == { [n |-> n, m |-> m, layers |-> ly, ks |-> ks, lb |-> lb] :
          n \in 1..N, m \in 1..N, ly \in Seqs(1..N, 2), ks \in Seqs(Kn \cup {"nosuch"}, 3), lb \in 0..2 }
Distinct(ks) == { ks[i] : i \in 1..Len(ks) }
Neurons(r) == FoldLeft(LAMBDA a, k : a \o [i \in 1..SizeOf(r, k) |-> << k, i - 1 >>], << >>, [k \in 1..NLay(r) |-> k])
NoG == [n |-> 0]
Init == /\ q \in { r \in Reqs : Len(r.ks) \in {NLay(r), NLay(r) + 1} }
        /\ (IF EMIT THEN PrintT("CASE " \o ToJson(q)) ELSE TRUE)
        /\ IF ~GoodReq(q, Kn)
           THEN g = NoG /\ x = << >> /\ todo = << >> /\ st = "refused"
           ELSE /\ \E f \in { h \in [1..Cardinality(Distinct(q.ks)) -> Distinct(q.ks)] : \A i, j \in DOMAIN h : h[i] = h[j] => i = j } :
                     g = EncGeo(q, [i \in 1..Len(f) |-> f[i]])
                /\ \E s \in {"low", "high"} : x = IF s = "low" THEN g.lb ELSE g.ub
                /\ todo = Neurons(q) /\ st = "writing"
KernelId(name) == CHOOSE i \in 1..Len(g.f) : g.f[i] = name
Base(k) == IF k = 0 THEN 0 ELSE q.n + (k - 1) * g.r
Write == /\ st = "writing" /\ todo # << >>
         /\ LET k == todo[1][1]
                id == Base(k) + todo[1][2]
                gi == Gi(g, id)
                kid == IF BROKEN = "kernel" THEN (IF k > Len(g.f) THEN 1 ELSE k) ELSE KernelId(q.ks[k])
                c0 == IF BROKEN = "base" /\ k > 1 THEN Base(k - 1) - 1 ELSE Base(k - 1)
            IN x' = [i \in 1..Len(x) |-> IF i = gi + 1 THEN kid - 1
                                         ELSE IF i > gi + 1 /\ i <= gi + 1 + Arity(g, id) THEN c0 + (i - gi - 2) ELSE x[i]]
         /\ todo' = Tail(todo) /\ UNCHANGED << q, g, st >>
Outputs == /\ st = "writing" /\ todo = << >>
           /\ x' = [i \in 1..Len(x) |-> IF i > Len(x) - q.m THEN Base(NLay(q)) + (i - (Len(x) - q.m) - 1) ELSE x[i]]
           /\ st' = "done" /\ UNCHANGED << q, g, todo >>
Next == IF EMIT THEN FALSE /\ UNCHANGED vars ELSE Write \/ Outputs
Spec == Init /\ [][Next]_vars
Network == st = "done" => IsNetwork(q, g, x)
Dense == st = "done" => ActW(g, x) = DenseW(q, NLay(q)) /\ ActB(g, x) = DenseB(q, NLay(q))
\* what is not written does not matter: already-written neurons stay as they are
Stays == [][ \A k \in 1..Len(x) : st = "writing" /\ todo # << >> /\ x'[k] # x[k] =>
             k - 1 \in GenesOf(g, Base(todo[1][1]) + todo[1][2]) ]_vars
Refused == (st = "refused") = ~GoodReq(q, Kn)
===================================================================================
