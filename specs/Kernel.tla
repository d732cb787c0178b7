---------------------------------- MODULE Kernel ----------------------------------
(* Kernels (a numeric callable, a symbolic callable, a name) and ordered kernel sets *)
(* as a store of independent values.  A callable is [b: name of a built-in] or a      *)
(* user-defined one [b: "cust", lv: thread-safety level, k: parameter].               *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS KSlots, SSlots,    \* slots for kernels, for sets
          Names,             \* names a kernel set knows for its type
          BadNames,          \* names it does not know
          Custs,             \* user-defined callables
          MaxLen
Lv(f) == IF f.b = "cust" THEN f.lv ELSE 1        \* built-ins give the basic guarantee
Min2(a, b) == IF a < b THEN a ELSE b
Dead == [s |-> "dead"]
MovedK == [s |-> "moved"]
Ker(num, sym, name) == [s |-> "ok", num |-> num, sym |-> sym, name |-> name]
BuiltinK(n) == Ker([b |-> n], [b |-> n], n)
KLevel(k) == Min2(Lv(k.num), Lv(k.sym))
VARIABLES ks, ss             \* slot -> kernel ; slot -> [s: "dead"|"moved"|"ok", q: sequence of kernels]
vars == << ks, ss >>
Set(q) == [s |-> "ok", q |-> q]
Init == ks = [a \in KSlots |-> Dead] /\ ss = [a \in SSlots |-> Dead]
Ok(o) == o.s = "ok"
KMake(a, num, sym, name) == ks[a] = Dead /\ ks' = [ks EXCEPT ![a] = Ker(num, sym, name)] /\ UNCHANGED ss
KDestroy(a) == ks[a] # Dead /\ ks' = [ks EXCEPT ![a] = Dead] /\ UNCHANGED ss
KCopy(a, b) == ks[a] = Dead /\ Ok(ks[b]) /\ ks' = [ks EXCEPT ![a] = ks[b]] /\ UNCHANGED ss
KMove(a, b) == a # b /\ ks[a] = Dead /\ Ok(ks[b]) /\ ks' = [ks EXCEPT ![a] = ks[b], ![b] = MovedK] /\ UNCHANGED ss
KAssign(a, b) == ks[a] # Dead /\ Ok(ks[b]) /\ ks' = [ks EXCEPT ![a] = ks[b]] /\ UNCHANGED ss
KMoveAssign(a, b) == a # b /\ ks[a] # Dead /\ Ok(ks[b]) /\ ks' = [ks EXCEPT ![a] = ks[b], ![b] = MovedK] /\ UNCHANGED ss
KSaveLoad(a, b) == ks[a] # Dead /\ Ok(ks[b]) /\ ks' = [ks EXCEPT ![a] = ks[b]] /\ UNCHANGED ss
\* a set built from names: all must be known, else nothing is built
SMake(a, ns) == /\ ss[a] = Dead /\ UNCHANGED ks
                /\ ss' = IF \A i \in 1..Len(ns) : ns[i] \in Names
                         THEN [ss EXCEPT ![a] = Set([i \in 1..Len(ns) |-> BuiltinK(ns[i])])] ELSE ss
SPush(a, n) == /\ Ok(ss[a]) /\ UNCHANGED ks
               /\ ss' = IF n \in Names THEN [ss EXCEPT ![a].q = Append(@, BuiltinK(n))] ELSE ss
SPushK(a, b) == Ok(ss[a]) /\ Ok(ks[b]) /\ ss' = [ss EXCEPT ![a].q = Append(@, ks[b])] /\ UNCHANGED ks
SClear(a) == Ok(ss[a]) /\ ss' = [ss EXCEPT ![a].q = << >>] /\ UNCHANGED ks
SGet(a, b, i) == Ok(ss[b]) /\ i \in 1..Len(ss[b].q) /\ ks' = [ks EXCEPT ![a] = ss[b].q[i]] /\ UNCHANGED ss
SCopy(a, b) == ss[a] = Dead /\ Ok(ss[b]) /\ ss' = [ss EXCEPT ![a] = ss[b]] /\ UNCHANGED ks
SAssign(a, b) == ss[a] # Dead /\ Ok(ss[b]) /\ ss' = [ss EXCEPT ![a] = ss[b]] /\ UNCHANGED ks
SMove(a, b) == a # b /\ ss[a] = Dead /\ Ok(ss[b]) /\ ss' = [ss EXCEPT ![a] = ss[b], ![b] = [s |-> "moved"]] /\ UNCHANGED ks
SSaveLoad(a, b) == ss[a] # Dead /\ Ok(ss[b]) /\ ss' = [ss EXCEPT ![a] = ss[b]] /\ UNCHANGED ks
SDestroy(a) == ss[a] # Dead /\ ss' = [ss EXCEPT ![a] = Dead] /\ UNCHANGED ks
NameLists == {<< >>} \cup { << n >> : n \in Names \cup BadNames } \cup { << n, m >> : n \in Names \cup BadNames, m \in Names }
Next == \/ \E a \in KSlots : KDestroy(a) \/ (\E f, p \in Custs : KMake(a, f, p, "k"))
        \/ \E a, b \in KSlots : KCopy(a, b) \/ KMove(a, b) \/ KAssign(a, b) \/ KMoveAssign(a, b) \/ KSaveLoad(a, b)
        \/ \E a, b \in SSlots : SCopy(a, b) \/ SAssign(a, b) \/ SMove(a, b) \/ SSaveLoad(a, b)
        \/ \E a \in SSlots : SClear(a) \/ SDestroy(a) \/ (\E n \in Names \cup BadNames : SPush(a, n)) \/ (\E ns \in NameLists : SMake(a, ns))
        \/ \E a \in KSlots, b \in SSlots : SPushK(b, a) \/ (\E i \in 1..MaxLen : SGet(a, b, i))
Spec == Init /\ [][Next]_vars
Bound == \A a \in SSlots : Ok(ss[a]) => Len(ss[a].q) <= MaxLen
\* the guarantee of a kernel never exceeds that of its callables
NeverOverstated == \A a \in KSlots : Ok(ks[a]) => KLevel(ks[a]) <= Lv(ks[a].num) /\ KLevel(ks[a]) <= Lv(ks[a].sym)
NamesKept == \A a \in SSlots : Ok(ss[a]) => \A i \in 1..Len(ss[a].q) :
                LET k == ss[a].q[i] IN k.num.b # "cust" => k.name = k.num.b /\ k.sym.b = k.num.b
OrderKept == [][\A a \in SSlots : (Ok(ss[a]) /\ Ok(ss'[a]) /\ Len(ss'[a].q) = Len(ss[a].q) + 1) =>
                    \/ SubSeq(ss'[a].q, 1, Len(ss[a].q)) = ss[a].q
                    \/ \E b \in SSlots : b # a /\ Ok(ss[b]) /\ ss'[a] = ss[b]]_vars
====================================================================================
