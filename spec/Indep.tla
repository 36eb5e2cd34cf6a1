------------------------------ MODULE Indep ------------------------------
(* Independence of values computed from random draws.  b is what a run       *)
(* computed, x[k] what the run computes when its k-th draw alone is altered. *)
(* Every value must be altered, alone, by the alteration of some draw: a     *)
(* value that repeats, or is a function of, the others never is.             *)
EXTENDS Naturals, Sequences
LOCAL Changed(b, y) == {i \in 1..Len(b) : y[i] # b[i]}
Dependent(b, x) == LET alone == {Changed(b, x[k]) : k \in {k \in 1..Len(x) : Len(x[k]) = Len(b)}}
                   IN {i \in 1..Len(b) : {i} \notin alone}
Independent(b, x) == Dependent(b, x) = {}
=============================================================================
