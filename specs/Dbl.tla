---------------------------------- MODULE Dbl ----------------------------------
(* IEEE-754 doubles for TLC.  A number is <<hi, lo>>, the two 32-bit halves of    *)
(* its bit pattern, or <<hi, lo, ehi, elo>>, the second double being a bound on   *)
(* the rounding error accumulated so far.  The operators are implemented by the   *)
(* TLC module override java/tlc2/module/Dbl.java; the definitions here only fix   *)
(* their arity.  Results that are exact (small dyadic numbers) carry no error     *)
(* bound and are compared exactly.                                                *)
LOCAL INSTANCE Integers
DAdd(a, b) == CHOOSE x \in {} : TRUE
DSub(a, b) == CHOOSE x \in {} : TRUE
DMul(a, b) == CHOOSE x \in {} : TRUE
DDiv(a, b) == CHOOSE x \in {} : TRUE
DNeg(a) == CHOOSE x \in {} : TRUE
DAbs(a) == CHOOSE x \in {} : TRUE
DExp(a) == CHOOSE x \in {} : TRUE
DLog(a) == CHOOSE x \in {} : TRUE
DSin(a) == CHOOSE x \in {} : TRUE
DCos(a) == CHOOSE x \in {} : TRUE
DTanh(a) == CHOOSE x \in {} : TRUE
DSqrt(a) == CHOOSE x \in {} : TRUE
DPow(a, b) == CHOOSE x \in {} : TRUE
DMax(a, b) == CHOOSE x \in {} : TRUE
DStepPos(a) == CHOOSE x \in {} : TRUE       \* 1 if a > 0 else 0
DIfPos(c, a, b) == CHOOSE x \in {} : TRUE   \* a if c > 0 else b
DIfFinite(a, b) == CHOOSE x \in {} : TRUE   \* a if finite else b
DLt(a, b) == CHOOSE x \in {} : TRUE
DLe(a, b) == CHOOSE x \in {} : TRUE
DEq(a, b) == CHOOSE x \in {} : TRUE
DSame(a, b) == CHOOSE x \in {} : TRUE       \* equal, or both NaN
DIsNaN(a) == CHOOSE x \in {} : TRUE
DIsFinite(a) == CHOOSE x \in {} : TRUE
DExactV(a) == CHOOSE x \in {} : TRUE        \* forget the error bound
DBlur(a, r) == CHOOSE x \in {} : TRUE       \* add a relative uncertainty r
DAgrees(a, o) == CHOOSE x \in {} : TRUE     \* does computed a explain observed o
DConclusive(a) == CHOOSE x \in {} : TRUE    \* is the error bound of a small
DInt(n) == CHOOSE x \in {} : TRUE
DStr(s) == CHOOSE x \in {} : TRUE
DShow(a) == CHOOSE x \in {} : TRUE
DPi == CHOOSE x \in {} : TRUE
DEuler == CHOOSE x \in {} : TRUE
FParse(s) == CHOOSE x \in {} : TRUE         \* formula text -> tree
================================================================================
