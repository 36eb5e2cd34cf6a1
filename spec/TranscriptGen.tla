--------------------------- MODULE TranscriptGen ---------------------------
(* Enumerates the shapes of the histories of Transcript that end with a     *)
(* draw; each is replayed on the real transcript with several messages.     *)
EXTENDS Naturals, Sequences, TLC
CONSTANT MaxLen
VARIABLE shape
Init == shape = <<>>
Next == /\ Len(shape) < MaxLen
        /\ \E k \in {"f", "c", "s", "d1", "d2"} :
             /\ shape # <<>> \/ k \notin {"d1", "d2"}
             /\ shape' = Append(shape, k)
Emit == (shape # <<>> /\ shape[Len(shape)] \in {"d1", "d2"}) => PrintT(<<"SHAPE", shape>>)
=============================================================================
