---- MODULE MCKernel ----
EXTENDS Kernel
C2 == { [b |-> "cust", lv |-> 0, k |-> 1], [b |-> "cust", lv |-> 2, k |-> 1] }
====
