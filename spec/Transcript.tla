----------------------------- MODULE Transcript -----------------------------
(* The transcript that makes the zero-knowledge protocol non-interactive.   *)
(*                                                                          *)
(* A history is the sequence of everything recorded: field ("f") and group  *)
(* ("c") messages of the proof, public statement ("s"), and draws ("d") of  *)
(* challenges, which are recorded too.  A draw answers with a function of   *)
(* the history that takes different values on different histories of the    *)
(* same shape (same kinds in the same order).  The specification samples    *)
(* that function lazily: `asked' maps the histories drawn from so far to    *)
(* their answers, and an answer never given before is chosen for a new one. *)
EXTENDS Naturals, Sequences, FiniteSets, SequencesExt

CONSTANTS MaxLen,       \* operations per history
          Runs,         \* histories replayed against one oracle
          Vals,         \* message values
          Answers       \* answers available (at least one per history)

Kinds == {"f", "c", "s"}
Ops == (Kinds \X Vals) \cup {<<"d", n>> : n \in {1, 2}}

VARIABLES hist,         \* the history being built
          asked,        \* history |-> answer
          run           \* histories finished
vars == <<hist, asked, run>>

Init == hist = <<>> /\ asked = [h \in {} |-> 0] /\ run = <<>>

Push == \E k \in Kinds, x \in Vals : Len(hist) < MaxLen /\ hist' = Append(hist, <<k, x>>) /\ UNCHANGED <<asked, run>>
Draw ==
  /\ Len(hist) < MaxLen /\ hist # <<>>
  /\ \E n \in {1, 2} :
       IF <<hist, n>> \in DOMAIN asked
       THEN hist' = Append(hist, <<"d", asked[<<hist, n>>]>>) /\ UNCHANGED <<asked, run>>
       ELSE \E a \in Answers :
              /\ \A h \in DOMAIN asked : asked[h] # a
              /\ asked' = [h \in DOMAIN asked \cup {<<hist, n>>} |-> IF h = <<hist, n>> THEN a ELSE asked[h]]
              /\ hist' = Append(hist, <<"d", a>>) /\ UNCHANGED run
NewRun == Len(run) < Runs - 1 /\ hist # <<>> /\ run' = Append(run, hist) /\ hist' = <<>> /\ UNCHANGED asked
Next == Push \/ Draw \/ NewRun
Spec == Init /\ [][Next]_vars

(* shape of a history and its messages                                      *)
Proof(h) == SelectSeq(h, LAMBDA m : m[1] \in {"f", "c"})

(* a challenge fixes everything recorded before it: two histories in which  *)
(* the same challenge appears agree up to that point                        *)
Binds ==
  \A h1 \in Range(run) \cup {hist}, h2 \in Range(run) \cup {hist} :
    \A i \in 1..Len(h1), j \in 1..Len(h2) :
      (h1[i][1] = "d" /\ h2[j] = h1[i]) => (i = j /\ SubSeq(h1, 1, i) = SubSeq(h2, 1, j)) \/ h1 = h2
Functional ==
  \A h1 \in Range(run) \cup {hist}, h2 \in Range(run) \cup {hist} : \A i \in 1..Len(h1) :
    (h1[i][1] = "d" /\ Len(h2) >= i /\ SubSeq(h1, 1, i - 1) = SubSeq(h2, 1, i - 1) /\ h2[i][1] = "d")
      => (h2[i] = h1[i] \/ \E n \in {1, 2}, m \in {1, 2} : n # m /\ <<SubSeq(h1, 1, i - 1), n>> \in DOMAIN asked /\ <<SubSeq(h1, 1, i - 1), m>> \in DOMAIN asked)
=============================================================================
