------------------------------ MODULE ZKPair ------------------------------
(* Properties of two runs of the zero-knowledge program on one circuit.     *)
(*   "masks"   same randomness, different inputs: the masks and blinding     *)
(*             values drawn are the same, so they say nothing of the input   *)
(*   "hidden"  same inputs and challenges, different randomness: no masked   *)
(*             message is the same                                           *)
(*   "bound"   the second run deviates in one message: every challenge drawn *)
(*             before it is the same, every challenge drawn after it differs *)
(*   "indep"   the runs x differ from a in one random draw each: every mask  *)
(*             and blinding value is determined by draws of its own          *)
EXTENDS Indep, Naturals, Sequences, SequencesExt, FiniteSets, Json, IOUtils, TLC

Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES t, fin
Tr == Traces[t]
Init == t \in 1..Len(Traces) /\ fin = FALSE

MaskOf(e) == CASE e.e = "icom" -> e.m \o e.rf
               [] e.e = "layer" -> IF e.d = <<>> THEN <<>> ELSE e.m \o <<e.rf>>
               [] e.e = "mask" -> e.m \o <<e.rf>>
               [] OTHER -> <<>>
(* messages with what they are                                              *)
Named(n, q) == [i \in 1..Len(q) |-> <<n, i, q[i]>>]
(* coefficients above the degree of a round are zero whatever the masks     *)
Trim(q) == LET z == {i \in 1..Len(q) : \E j \in i..Len(q) : q[j] # "0"} IN SubSeq(q, 1, Cardinality(z))
MsgOf(e) == CASE e.e = "icom" -> Named("input commitment", e.d \o e.d2)
              [] e.e = "layer" -> Named("mask commitment", e.d)
              [] e.e = "mask" -> Named("sumcheck mask", e.d \o <<e.sum>>)
              [] e.e \in {"p1", "p2", "fr"} -> Named("round polynomial", Trim(e.poly))
              [] e.e = "bind" -> Named("first end value", <<e.vu>>)
              [] e.e = "fin" -> Named("second end value", <<e.vv>>)
              [] e.e \in {"oR", "oM", "oI"} -> Named("opening", e.w \o e.wa \o <<e.v>>)
              [] OTHER -> <<>>
Cat(evs, F(_)) == FoldLeft(LAMBDA acc, e : acc \o F(e), <<>>, evs)

Masks == Cat(Tr.a, MaskOf) = Cat(Tr.b, MaskOf)
Hidden == LET p == Cat(Tr.a, MsgOf)  q == Cat(Tr.b, MsgOf)
              n == IF Len(p) < Len(q) THEN Len(p) ELSE Len(q)
              same == {i \in 1..n : p[i] = q[i]}
          IN IF Len(p) # Len(q) THEN "runs of different length"
             ELSE IF same = {} THEN "" ELSE p[CHOOSE i \in same : TRUE][1] \o " does not depend on the masks"

AllMasks(evs) == Cat(evs, MaskOf)
Indep_ == LET b == AllMasks(Tr.a)
              d == Dependent(b, [k \in 1..Len(Tr.x) |-> AllMasks(Tr.x[k])])
          IN IF d = {} THEN "" ELSE "mask or blinding value number " \o ToString(CHOOSE i \in d : \A j \in d : i <= j) \o " is a function of the others"

DrawsOf(evs) == SelectSeq(evs, LAMBDA e : e.e = "draw")
FirstDiff == LET n == IF Len(Tr.a) < Len(Tr.b) THEN Len(Tr.a) ELSE Len(Tr.b)
                 d == {i \in 1..n : Tr.a[i] # Tr.b[i]}
             IN IF d = {} THEN n + 1 ELSE CHOOSE i \in d : \A j \in d : i <= j
Bound ==
  LET k == FirstDiff
      p == DrawsOf(SubSeq(Tr.a, k, Len(Tr.a)))
      q == DrawsOf(SubSeq(Tr.b, k, Len(Tr.b)))
      n == IF Len(p) < Len(q) THEN Len(p) ELSE Len(q)
  IN IF k <= Len(Tr.a) /\ Tr.a[k].e = "draw" THEN "challenge differs before any message does"
     ELSE IF \E i \in 1..n : \E j \in 1..(IF Len(p[i].r) < Len(q[i].r) THEN Len(p[i].r) ELSE Len(q[i].r)) : p[i].r[j] = q[i].r[j]
     THEN "a challenge does not depend on the message " \o (IF k <= Len(Tr.a) THEN Tr.a[k].e ELSE "?")
     ELSE ""

Next == /\ ~fin
        /\ LET w == CASE Tr.mode = "masks" -> IF Masks THEN "" ELSE "masks depend on the inputs"
                      [] Tr.mode = "hidden" -> Hidden
                      [] Tr.mode = "bound" -> Bound
                      [] Tr.mode = "indep" -> Indep_
           IN PrintT(<<"RES", Tr.id, IF w = "" THEN <<>> ELSE <<Tr.mode \o ": " \o w>>, w = "" >>)
        /\ fin' = TRUE /\ t' = t
=============================================================================
