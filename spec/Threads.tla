------------------------------ MODULE Threads ------------------------------
(* The fork-join regions of the multi-threaded prover, every interleaving.   *)
(* NT workers share arrays of N cells; a worker owns the slice of N/NT       *)
(* consecutive cells (one cell each when N < NT, the rest idle).  Regions    *)
(* are separated by joins:                                                   *)
(*   1 beta   : own cells of beta are computed                               *)
(*   2 init   : own cells of sum are accumulated from ALL of beta            *)
(*   3 update : own pairs of sum are folded into next and into ret[worker]   *)
(* One step of a worker reads or writes one cell.  Footprints are disjoint   *)
(* within a region, hence the result is the sequential one whatever the      *)
(* interleaving.  Merge = TRUE joins regions 1 and 2 (the defect fixed in    *)
(* faffb6f) and is refuted.                                                  *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS NT, N, Merge

Workers == 0..(NT - 1)
Bs(n) == IF n \div NT = 0 THEN 1 ELSE n \div NT
Slice(w, n) == {i \in 0..(n - 1) : i >= w * Bs(n) /\ i < (w + 1) * Bs(n)}
Lst(w, n) == LET s == Slice(w, n) IN [k \in 1..Cardinality(s) |-> w * Bs(n) + k - 1]

VARIABLES region, pos, beta, sum, next, ret, tmp
vars == <<region, pos, beta, sum, next, ret, tmp>>

Val(i) == 2 * i + 1                    \* what beta[i] must become
Wire(i) == (3 * i + 1) % N             \* the two gates reading wire i
(* the program of worker w in a region: a list of atomic steps               *)
BetaProg(w) == [k \in 1..Len(Lst(w, N)) |-> <<"beta", Lst(w, N)[k], 0>>]
RECURSIVE InitProgFrom(_, _)
InitProgFrom(l, k) == IF k > Len(l) THEN <<>>
  ELSE << <<"zero", l[k], 0>>, <<"load", l[k], Wire(l[k])>>, <<"acc", l[k], 0>>,
          <<"load", l[k], (Wire(l[k]) + 1) % N>>, <<"acc", l[k], 0>> >> \o InitProgFrom(l, k + 1)
UpdProg(w) == <<<<"ret0", 0, 0>>>> \o [k \in 1..Len(Lst(w, N \div 2)) |-> <<"fold", Lst(w, N \div 2)[k], 0>>]
Prog(r, w) == CASE r = 1 -> BetaProg(w) \o (IF Merge THEN InitProgFrom(Lst(w, N), 1) ELSE <<>>)
                [] r = 2 -> IF Merge THEN <<>> ELSE InitProgFrom(Lst(w, N), 1)
                [] r = 3 -> UpdProg(w)
                [] OTHER -> <<>>

Init == /\ region = 1 /\ pos = [w \in Workers |-> 1]
        /\ beta = [i \in 0..(N - 1) |-> 0] /\ sum = [i \in 0..(N - 1) |-> 0]
        /\ next = [i \in 0..(N - 1) |-> 0] /\ ret = [w \in Workers |-> 0] /\ tmp = [w \in Workers |-> 0]

Step(w) ==
  /\ region <= 3 /\ pos[w] <= Len(Prog(region, w))
  /\ pos' = [pos EXCEPT ![w] = @ + 1] /\ region' = region
  /\ LET q == Prog(region, w)[pos[w]] IN
     CASE q[1] = "beta" -> beta' = [beta EXCEPT ![q[2]] = Val(q[2])] /\ UNCHANGED <<sum, next, ret, tmp>>
       [] q[1] = "zero" -> sum' = [sum EXCEPT ![q[2]] = 0] /\ UNCHANGED <<beta, next, ret, tmp>>
       [] q[1] = "load" -> tmp' = [tmp EXCEPT ![w] = sum[q[2]] + beta[q[3]]] /\ UNCHANGED <<beta, sum, next, ret>>
       [] q[1] = "acc"  -> sum' = [sum EXCEPT ![q[2]] = tmp[w]] /\ UNCHANGED <<beta, next, ret, tmp>>
       [] q[1] = "ret0" -> ret' = [ret EXCEPT ![w] = 0] /\ UNCHANGED <<beta, sum, next, tmp>>
       [] q[1] = "fold" -> /\ next' = [next EXCEPT ![q[2]] = sum[2 * q[2]] + 5 * sum[2 * q[2] + 1]]
                           /\ ret' = [ret EXCEPT ![w] = @ + sum[2 * q[2]] + 5 * sum[2 * q[2] + 1]]
                           /\ UNCHANGED <<beta, sum, tmp>>
Join == /\ region <= 3 /\ \A w \in Workers : pos[w] > Len(Prog(region, w))
        /\ region' = region + 1 /\ pos' = [w \in Workers |-> 1] /\ tmp' = [w \in Workers |-> 0]
        /\ UNCHANGED <<beta, sum, next, ret>>
Next == Join \/ \E w \in Workers : Step(w)

(* every cell is handled by exactly one worker                               *)
Partition == \A n \in {N, N \div 2} : \A i \in 0..(n - 1) : Cardinality({w \in Workers : i \in Slice(w, n)}) = 1
(* footprint of a step: <<array, cell, writes?>>                             *)
Foot(w) == IF region > 3 \/ pos[w] > Len(Prog(region, w)) THEN {}
  ELSE LET q == Prog(region, w)[pos[w]] IN
     CASE q[1] = "beta" -> {<<"beta", q[2], TRUE>>}
       [] q[1] \in {"zero", "acc"} -> {<<"sum", q[2], TRUE>>}
       [] q[1] = "load" -> {<<"sum", q[2], FALSE>>, <<"beta", q[3], FALSE>>}
       [] q[1] = "ret0" -> {<<"ret", w, TRUE>>}
       [] q[1] = "fold" -> {<<"next", q[2], TRUE>>, <<"ret", w, TRUE>>, <<"sum", 2 * q[2], FALSE>>, <<"sum", 2 * q[2] + 1, FALSE>>}
NoRace == \A a \in Workers, b \in Workers : a # b =>
  ~\E x \in Foot(a), y \in Foot(b) : x[1] = y[1] /\ x[2] = y[2] /\ (x[3] \/ y[3])
Want(i) == Val(Wire(i)) + Val((Wire(i) + 1) % N)
RECURSIVE Tot(_, _)
Tot(f, S) == IF S = {} THEN 0 ELSE LET k == CHOOSE k \in S : TRUE IN f[k] + Tot(f, S \ {k})
Result == region = 4 =>
  /\ \A i \in 0..(N \div 2 - 1) : next[i] = Want(2 * i) + 5 * Want(2 * i + 1)
  /\ Tot(ret, Workers) = Tot(next, 0..(N \div 2 - 1))
=============================================================================
