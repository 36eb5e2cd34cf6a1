-------------------------------- MODULE Notes --------------------------------
(* Deviations found in a trace, as <<category, text>>.  Only the first three *)
(* of each category are kept, so that a trace that deviates everywhere stays *)
(* readable and yet no category can crowd out another one.                   *)
EXTENDS Integers, Sequences, FiniteSets
Room(f, cat) == Cardinality({i \in 1..Len(f) : f[i][1] = cat}) < 3
Jot(f, cat, msg) == IF Room(f, cat) THEN Append(f, <<cat, msg>>) ELSE f
Texts(f) == [i \in 1..Len(f) |-> f[i][1] \o ": " \o f[i][2]]
=============================================================================
