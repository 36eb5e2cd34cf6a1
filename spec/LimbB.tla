-------------------------------- MODULE LimbB --------------------------------
(* Limb for wider words: all values, but second operands at word boundaries *)
(* only.                                                                     *)
EXTENDS Limb
Edge == {0, 1, D - 1, D, Q - 1, Q, N - 1} \cup Mods
InitB == x \in 0..(2 ^ Shift - 1) /\ y = 0 /\ m \in Mods
NextB == FALSE /\ UNCHANGED vars
EdgesOk == (m = CHOOSE k \in Mods : TRUE) =>
   \A e \in Edge : Add(x, e) = (x + e) % N /\ Sub(x, e) = (x - e) % N /\ Sub(e, x) = (e - x) % N /\ Geq(x, e) = (x >= e) /\ Geq(e, x) = (e >= x)
FieldAllOk == x < m => \A k \in 0..(m - 1) : FieldAdd(x, k, m) = (x + k) % m /\ FieldSub(x, k, m) = (x - k) % m
=============================================================================
