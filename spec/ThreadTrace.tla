----------------------------- MODULE ThreadTrace -----------------------------
(* Recorded fork-join regions of the real prover satisfy NoRace of Threads:  *)
(* conf lists <<region, worker, worker>> whose footprints conflict.          *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES t, done
Init == t \in 1..Len(Traces) /\ done = FALSE
Tr == Traces[t]
Found == (IF Tr.nconf > 0 THEN <<"race: workers of region " \o ToString(Tr.conf[1][1]) \o " touch the same memory">> ELSE <<>>)
Next == ~done /\ done' = TRUE /\ t' = t /\ PrintT(<<"RES", Tr.id, Found, Found = <<>>>>)
=============================================================================
