------------------------------- MODULE Spread -------------------------------
(* How many values a challenge can take.  A record holds, for many recorded  *)
(* challenges (n of them), one string of 0s and 1s per binary digit.  If a   *)
(* challenge ranges over fewer than 2^k values because digits are constant   *)
(* or copies of each other, fewer than k columns differ from each other and  *)
(* from the constant ones.                                                   *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACES)
Need == 80
VARIABLES t, done
Init == t \in 1..Len(Traces) /\ done = FALSE
Tr == Traces[t]
Varying == {c \in {Tr.cols[b] : b \in 1..Len(Tr.cols)} : \E i, j \in 1..Len(c) : SubSeq(c, i, i) # SubSeq(c, j, j)}
Found == IF Tr.n < 100 THEN <<"chal: too few challenges recorded">>
         ELSE IF Cardinality(Varying) < Need THEN <<"chal: only " \o ToString(Cardinality(Varying)) \o " binary digits of a challenge are drawn">> ELSE <<>>
Next == ~done /\ done' = TRUE /\ t' = t /\ PrintT(<<"RES", Tr.id, Found, Found = <<>>>>)
=============================================================================
