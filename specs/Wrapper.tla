--------------------------------- MODULE Wrapper ---------------------------------
(* The type-erased function wrapper as a store of independent values.              *)
(* A slot holds                                                                     *)
(*   [k: "dead"]                 no wrapper object                                  *)
(*   [k: "moved"]                a moved-from wrapper (may be assigned or destroyed) *)
(*   [k: "fn", t: type, v: state]  a wrapper holding a callable of type t           *)
(* Callable types (driver drv_wrapper.cpp), each int(int):                          *)
(*   "null"   a null function pointer         "fptr"  x |-> 100 + x, unregistered   *)
(*   "add"    x |-> x + v    (level basic)    "mul"   x |-> x * v   (level none)    *)
(*   "vec"    x |-> x + sum of a heap block of v ones (level constant)              *)
(*   "count"  x |-> 10 * x + v, and v' = v + 1: a callable with mutable state       *)
(*            (level none)                                                          *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Slots, MaxV
Types == {"null", "fptr", "add", "mul", "vec", "count"}
Stateful == {"add", "mul", "vec", "count"}
Level(t) == CASE t \in {"null", "fptr", "add"} -> 1
              [] t \in {"mul", "count"} -> 0
              [] t = "vec" -> 2
Dead == [k |-> "dead"]
Moved == [k |-> "moved"]
Fn(t, v) == [k |-> "fn", t |-> t, v |-> v]
IsFn(o) == o.k = "fn"
Registered(t) == t \in Stateful

\* what calling returns: <<"throw">> or <<"ok", value>>, and the callable after the call
CallResult(o, x) == CASE o.t = "null" -> << "throw", 0 >>
                      [] o.t = "fptr" -> << "ok", 100 + x >>
                      [] o.t = "add" -> << "ok", x + o.v >>
                      [] o.t = "mul" -> << "ok", x * o.v >>
                      [] o.t = "vec" -> << "ok", x + o.v >>
                      [] o.t = "count" -> << "ok", 10 * x + o.v >>
AfterCall(o) == IF o.t = "count" THEN [o EXCEPT !.v = @ + 1] ELSE o

\* Operations.  Every op is a record [op, a, b, t, v]; a: target slot, b: other slot.
Op(op, a, b, t, v) == [op |-> op, a |-> a, b |-> b, t |-> t, v |-> v]
Enabled(s, o) ==
    CASE o.op = "make" -> s[o.a] = Dead
      [] o.op = "default" -> s[o.a] = Dead
      [] o.op = "destroy" -> s[o.a] # Dead
      [] o.op \in {"copy", "move"} -> s[o.a] = Dead /\ IsFn(s[o.b]) /\ o.a # o.b
      [] o.op \in {"assign", "moveassign"} -> s[o.a] # Dead /\ IsFn(s[o.b])
      [] o.op = "assignval" -> s[o.a] # Dead
      [] o.op = "swap" -> IsFn(s[o.a]) /\ IsFn(s[o.b])
      [] o.op = "call" -> IsFn(s[o.a])
      [] o.op = "poke" -> IsFn(s[o.a]) /\ s[o.a].t \in Stateful
      [] o.op = "saveload" -> s[o.a] # Dead /\ IsFn(s[o.b])
      [] o.op = "badload" -> IsFn(s[o.a]) /\ IsFn(s[o.b]) /\ Registered(s[o.b].t)
      [] o.op = "vector" -> IsFn(s[o.a])
Throws(s, o) ==
    CASE o.op = "call" -> s[o.a].t = "null"
      [] o.op = "saveload" -> ~Registered(s[o.b].t)
      [] o.op = "badload" -> TRUE
      [] OTHER -> FALSE
Step(s, o) ==
    CASE o.op = "make" -> [s EXCEPT ![o.a] = Fn(o.t, o.v)]
      [] o.op = "default" -> [s EXCEPT ![o.a] = Fn("null", 0)]
      [] o.op = "destroy" -> [s EXCEPT ![o.a] = Dead]
      [] o.op = "copy" -> [s EXCEPT ![o.a] = s[o.b]]
      [] o.op = "move" -> [s EXCEPT ![o.a] = s[o.b], ![o.b] = Moved]
      [] o.op = "assign" -> [s EXCEPT ![o.a] = s[o.b]]
      [] o.op = "moveassign" -> IF o.a = o.b THEN s ELSE [s EXCEPT ![o.a] = s[o.b], ![o.b] = Moved]
      [] o.op = "assignval" -> [s EXCEPT ![o.a] = Fn(o.t, o.v)]
      [] o.op = "swap" -> [s EXCEPT ![o.a] = s[o.b], ![o.b] = s[o.a]]
      [] o.op = "call" -> [s EXCEPT ![o.a] = AfterCall(s[o.a])]
      [] o.op = "poke" -> [s EXCEPT ![o.a].v = o.v]
      [] o.op = "saveload" -> IF Throws(s, o) THEN s ELSE [s EXCEPT ![o.a] = s[o.b]]
      [] o.op = "badload" -> s
      [] o.op = "vector" -> s        \* a vector of copies grows, shrinks and is read: the slot is untouched
AllOps == { Op("make", a, a, t, v) : a \in Slots, t \in Stateful, v \in {1} }
     \cup { Op("make", a, a, t, 0) : a \in Slots, t \in {"null", "fptr"} }
     \cup { Op(x, a, a, "", 0) : x \in {"default", "destroy", "call", "vector"}, a \in Slots }
     \cup { Op(x, a, b, "", 0) : x \in {"copy", "move", "assign", "moveassign", "swap", "saveload", "badload"}, a \in Slots, b \in Slots }
     \cup { Op("assignval", a, a, t, v) : a \in Slots, t \in {"add", "count"}, v \in {2} }
     \cup { Op("poke", a, a, "", v) : a \in Slots, v \in {2} }

VARIABLES store, hist
vars == << store, hist >>
Init == store = [a \in Slots |-> Dead] /\ hist = << >>
Next == \E o \in AllOps : Enabled(store, o) /\ store' = Step(store, o) /\ hist' = Append(hist, o)
Spec == Init /\ [][Next]_vars
Bound == \A a \in Slots : IsFn(store[a]) => store[a].v <= MaxV
View == store
\* one script per transition of the state graph, printed for the conformance driver
Emit == PrintT("SCRIPT " \o ToJson(hist'))

\* properties of the design
TypeOK == \A a \in Slots : store[a].k \in {"dead", "moved", "fn"} /\ (IsFn(store[a]) => store[a].t \in Types)
\* an operation touches the slots it names only
Locality == [][\A a \in Slots : \A o \in {hist'[Len(hist')]} : (a # o.a /\ a # o.b) => store'[a] = store[a]]_vars
\* copying or saving never changes the source
SourceIntact == [][LET o == hist'[Len(hist')] IN
    (o.op \in {"copy", "assign", "saveload", "badload"} /\ o.a # o.b) => store'[o.b] = store[o.b]]_vars
FailureKeeps == [][LET o == hist'[Len(hist')] IN Throws(store, o) => store' = store]_vars
===================================================================================
