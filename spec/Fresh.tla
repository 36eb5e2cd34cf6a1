-------------------------------- MODULE Fresh --------------------------------
(* Independence of challenges.  A record holds the challenges of one run     *)
(* (base) and of the runs in which exactly one draw from the random source   *)
(* was changed (flips).  Challenges are independent draws iff every draw     *)
(* changes at most one challenge and every challenge is changed by a draw of *)
(* its own.  The random source delivers 31 bits per draw, so a challenge     *)
(* that ranges over 2^80 values depends on three draws at least.             *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES t, done
Init == t \in 1..Len(Traces) /\ done = FALSE
Tr == Traces[t]
Changed(k) == {j \in 1..Len(Tr.base) : Tr.flips[k][j] # Tr.base[j]}
SameLen == \A k \in 1..Len(Tr.flips) : Len(Tr.flips[k]) = Len(Tr.base)
OwnDraws(j) == Cardinality({k \in 1..Len(Tr.flips) : Changed(k) = {j}})
Own(j) == OwnDraws(j) > 0
Few == {j \in 1..Len(Tr.base) : OwnDraws(j) \in 1..2}
Shared == {k \in 1..Len(Tr.flips) : Cardinality(Changed(k)) > 1}
Distinct == Cardinality({Tr.base[j] : j \in 1..Len(Tr.base)}) = Len(Tr.base)
Found ==
  IF ~SameLen THEN <<"chal: the number of challenges depends on a draw">>
  ELSE (IF \E j \in 1..Len(Tr.base) : ~Own(j)
        THEN <<"chal: challenge number " \o ToString(CHOOSE j \in 1..Len(Tr.base) : ~Own(j)) \o " has no draw of its own">> ELSE <<>>)
       \o (IF Few # {} THEN <<"chal: a challenge depends on fewer than three draws">> ELSE <<>>)
       \o (IF Shared # {} THEN <<"chal: one draw decides several challenges">> ELSE <<>>)
       \o (IF ~Distinct THEN <<"chal: two challenges coincide">> ELSE <<>>)
Next == ~done /\ done' = TRUE /\ t' = t /\ PrintT(<<"RES", Tr.id, Found, Found = <<>>>>)
=============================================================================
