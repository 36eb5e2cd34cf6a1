------------------------------ MODULE VPDTrace ------------------------------
(* Conformance of the commitment schemes of the program with VPD.  One      *)
(* record is one key, one polynomial, its commitments, openings, altered    *)
(* commitments and openings, with the answers of the program.               *)
(*   commit    an honest commitment is not the commitment to the polynomial *)
(*   open      an honest opening does not show the polynomial's value       *)
(*   accept    an honest commitment or opening is refused                   *)
(*   sound     something that breaks the equations is accepted              *)
(*   complete  something that satisfies the equations is refused            *)
(*   hide      two commitments or openings share their blinding, or the     *)
(*             blinding values of one depend on each other                   *)
(*   keys      the secret key elements depend on each other                 *)
EXTENDS Notes, VPD, Indep, Json, IOUtils, FiniteSets

Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES t, fin
vars == <<t, fin>>
Tr == Traces[t]
Init == t \in 1..Len(Traces) /\ fin = FALSE

Note(f, bad, cat, msg) == IF bad THEN Jot(f, cat, msg) ELSE f
Key == [a |-> Tr.a, s |-> Tr.s]
NV == Len(Tr.s) - 1
Short(c) == Len(c) <= 16

At(x) == CASE Tr.scheme = "R" -> PolyEval(SmallMask(Tr.poly), x)
           [] Tr.scheme = "M" -> MaskEval(Tr.poly, x)
           [] Tr.scheme = "I" -> MLE(Tr.poly, SubSeq(x, 1, NV))
Two == Tr.scheme = "I"

RECURSIVE Coms(_, _)
Coms(f, i) ==
  IF i > Len(Tr.cc) THEN f
  ELSE LET c == Tr.cc[i]
           good == CommitOk(Key, c.d[1], c.d[2]) /\ (~Two \/ CommitOk(Key, c.d2[1], c.d2[2]))
           true == HonestCommit(Key, At(Tr.s), c.rf[1], c.d[1], c.d[2])
                   /\ (~Two \/ HonestCommit(Key, LineEval(Tr.m, Tr.s[NV]), c.rf[2], c.d2[1], c.d2[2]))
           f1 == Note(f, c.hon /\ ~true, "commit", "commitment " \o ToString(i))
           f2 == Note(f1, c.hon /\ ~c.ok, "accept", "honest commitment refused")
           f3 == Note(f2, c.ok /\ ~good, "sound", "ill-formed commitment " \o ToString(i) \o " accepted")
       IN Coms(Note(f3, ~c.ok /\ good, "complete", "well-formed commitment " \o ToString(i) \o " refused"), i + 1)
RECURSIVE Opens(_, _)
Opens(f, i) ==
  IF i > Len(Tr.op) THEN f
  ELSE LET o == Tr.op[i]
           good == IF Two THEN OpenOk2(Key, o.d, o.d2, o.z, o.r, o.v, o.w, o.wa) ELSE OpenOk(Key, o.d, o.r, o.v, o.w, o.wa)
           true == IF Two THEN FAdd(At(o.r), FMul(o.z, LineEval(Tr.m, o.r[NV]))) ELSE At(o.r)
           f1 == Note(f, o.hon /\ o.v # true, "open", "opening " \o ToString(i) \o " shows another value")
           f2 == Note(f1, o.hon /\ ~good, "open", "opening " \o ToString(i) \o " breaks the opening equation")
           f3 == Note(f2, o.hon /\ ~o.ok, "accept", "honest opening " \o ToString(i) \o " refused")
           f4 == Note(f3, o.ok /\ ~good, "sound", "bad opening " \o ToString(i) \o " accepted")
       IN Opens(Note(f4, ~o.ok /\ good, "complete", "good opening " \o ToString(i) \o " refused"), i + 1)
(* blinding: two commitments to, and two openings of, the same polynomial   *)
(* differ in every component, and by amounts that are unrelated             *)
Spread(p, q) == \A i \in 1..Len(p) : p[i] # q[i] /\ \A j \in 1..(i - 1) : FSub(p[i], q[i]) # FSub(p[j], q[j])
(* (at a point that meets the key the last component carries no blinding)   *)
Generic(i) == LET r == Tr.op[2 * i].r IN \A j \in 1..Len(r) : r[j] # Tr.s[j]
Hide(f) ==
  LET c == Tr.cc[1]  e == Tr.cc[2]
      bs == << c.rf[1], e.rf[1] >> \o (IF Two THEN << c.rf[2], e.rf[2] >> ELSE <<>>)
      bad == \E i \in 1..Len(bs) : Short(bs[i]) \/ \E j \in 1..(i - 1) : bs[i] = bs[j]
      f1 == Note(f, bad \/ c.d = e.d \/ (Two /\ c.d2 = e.d2), "hide", "two commitments to a polynomial share their blinding")
  IN Note(f1, \E i \in 1..Len(Tr.tw) : Generic(i) /\ ~Spread(Tr.tw[i][1], Tr.tw[i][2]), "hide", "two openings of a commitment share their blinding")
(* ind: commitments, openings at a generic point, keys                      *)
Ind(f) == LET n == Len(Tr.ind)
              f1 == Note(f, n >= 1 /\ ~Independent(Tr.ind[1].b, Tr.ind[1].x), "hide", "blinding of commitments is not independent")
              f2 == Note(f1, n >= 2 /\ ~Independent(Tr.ind[2].b, Tr.ind[2].x), "hide", "blinding of the opening's components is not independent")
          IN Note(f2, n >= 3 /\ ~Independent(Tr.ind[3].b, Tr.ind[3].x), "keys", "secret key elements are not independent")

Next ==
  /\ ~fin
  /\ LET f == IF Tr.done THEN Ind(Hide(Opens(Coms(<<>>, 1), 1))) ELSE <<<<"accept", "run did not finish">>, <<"sound", "run did not finish">>, <<"complete", "run did not finish">>, <<"open", "run did not finish">>>>
     IN PrintT(<<"RES", Tr.id, Texts(f), f = <<>> >>)
  /\ fin' = TRUE /\ t' = t
=============================================================================
