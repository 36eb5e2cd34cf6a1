-------------------------- MODULE TranscriptTrace --------------------------
(* Histories of one shape replayed on the real transcript.  A record has    *)
(* the shape, the messages of every run (one entry per message operation;   *)
(* equal entries mean equal messages), the answers of every draw, and for   *)
(* some runs the proof file.  The answers must be those of one oracle of    *)
(* Transcript:                                                              *)
(*   func   equal histories got different challenges                        *)
(*   dist   different histories got equal challenges, or one draw repeats   *)
(*          itself                                                          *)
(*   canon  a challenge is not a canonical field element                    *)
(*   file   the proof file is not the proof messages in order               *)
EXTENDS Notes, Field, Json, IOUtils, FiniteSets

Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES t, fin
Tr == Traces[t]
Init == t \in 1..Len(Traces) /\ fin = FALSE
Note(f, bad, cat, msg) == IF bad THEN Jot(f, cat, msg) ELSE f

IsDraw(k) == k \in {"d1", "d2", "d1s", "d3", "d5"}
NDraws == Cardinality({i \in 1..Len(Tr.shape) : IsDraw(Tr.shape[i])})
(* position of the i-th draw, number of messages before it                  *)
DrawPos(i) == CHOOSE p \in 1..Len(Tr.shape) : IsDraw(Tr.shape[p]) /\ Cardinality({q \in 1..p : IsDraw(Tr.shape[q])}) = i
Before(i) == DrawPos(i) - i
(* what draw i of a run depends on: the messages before it (the draws before *)
(* it are functions of those)                                               *)
(* (a run given as alt = <<j, v>> is the first run with message j replaced   *)
(* by another value v)                                                      *)
Past(r, n) == IF "alt" \in DOMAIN r THEN (IF r.alt[1] <= n THEN r.alt ELSE <<0, "">>) ELSE SubSeq(r.m, 1, n)
RECURSIVE Draws(_, _)
Draws(f, i) ==
  IF i > NDraws THEN f
  ELSE LET n == Before(i)
           rs == {<<Past(Tr.runs[j], n), Tr.runs[j].d[i]>> : j \in 1..Len(Tr.runs)}
           hs == {x[1] : x \in rs}
           len == Len(Tr.runs[1].d[i])
           f1 == Note(f, Cardinality(rs) # Cardinality(hs), "func", "draw " \o ToString(i) \o " answers one history in two ways")
           f2 == Note(f1, Cardinality(rs) = Cardinality(hs)
                          /\ \E e \in 1..len : Cardinality({x[2][e] : x \in rs}) # Cardinality(hs),
                      "dist", "draw " \o ToString(i) \o " does not depend on every message before it")
           f3 == Note(f2, \E x \in rs : Cardinality(Range(x[2])) # len, "dist", "draw " \o ToString(i) \o " repeats a challenge")
       IN Draws(Note(f3, \E x \in rs : \E e \in 1..len : FAdd(x[2][e], FZero) # x[2][e], "canon", "draw " \o ToString(i) \o " is not canonical"), i + 1)
(* draws of one run differ from each other                                  *)
AllDraws(r) == FoldLeft(LAMBDA acc, x : acc \o x, <<>>, r.d)
OwnDraws(f) == Note(f, \E j \in 1..Len(Tr.runs) : Cardinality(Range(AllDraws(Tr.runs[j]))) # Len(AllDraws(Tr.runs[j])),
                    "dist", "a later draw repeats a challenge")
Want(r) == FoldLeft(LAMBDA acc, x : acc \o x, <<>>, r.proof)
RECURSIVE Files(_, _)
Files(f, j) ==
  IF j > Len(Tr.runs) THEN f
  ELSE LET r == Tr.runs[j] IN
       IF "file" \notin DOMAIN r THEN Files(f, j + 1)
       ELSE Files(Note(Note(f, r.file # Want(r), "file", "proof file is not the proof messages in order"),
                       r.size # Len(r.file), "file", "reported size is not the number of bytes written"), j + 1)
Next == /\ ~fin
        /\ LET f == IF Tr.done THEN Files(OwnDraws(Draws(<<>>, 1)), 1) ELSE <<<<"func", "replay did not finish">>, <<"file", "replay did not finish">>>>
           IN PrintT(<<"RES", Tr.id, Texts(f), f = <<>> >>)
        /\ fin' = TRUE /\ t' = t
=============================================================================
