------------------------------ MODULE ZKTrace ------------------------------
(* Conformance: what the zero-knowledge program's prover and verifier       *)
(* exchanged, what its transcript recorded and drew, and its verdict, is a  *)
(* behaviour of ZK.  Deviations are collected by kind:                      *)
(*   circ      circuit or layout not read as written                        *)
(*   eval      a gate value is wrong                                        *)
(*   msg       an honest prover's message is not the protocol's message     *)
(*   rel       the verifier's wiring value is not the circuit's             *)
(*   commit    an honest commitment or opening is not that of the           *)
(*             polynomial it is for                                         *)
(*   mask      a mask or blinding value is not fresh                        *)
(*   chal      a challenge was not drawn after the message it tests         *)
(*   rec       the transcript does not record exactly the messages sent     *)
(*   file      the proof file is not the recorded messages                  *)
(*   sound, complete, accept  as in GKRTrace                                *)
EXTENDS Notes, ZK, Json, IOUtils, FiniteSets

Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES t, k, s, aux
vars == <<t, k, s, aux>>
Tr == Traces[t]
NoRun == [pc |-> "none", ok |-> TRUE, lay |-> 0, why |-> ""]

Init == /\ t \in 1..Len(Traces)
        /\ k = 1
        /\ s = NoRun
        /\ aux = [found |-> <<>>, pool |-> {}, drawn |-> {}, used |-> {}, sent |-> <<>>,
                  masks |-> {}, lost |-> FALSE, why |-> "", out |-> <<>>, fin |-> FALSE]

Note(a, bad, cat, msg) == IF bad THEN [a EXCEPT !.found = Jot(@, cat, msg)] ELSE a
Where(st) == " layer " \o ToString(st.lay - 1)
Lost(a, msg) == [a EXCEPT !.lost = TRUE, !.why = IF @ = "" THEN msg ELSE @]

-----------------------------------------------------------------------------
(* The transcript: messages sent since the last draw, and the challenges    *)
(* drawn since the last message.                                            *)
Fld(xs) == [i \in 1..Len(xs) |-> <<"f", xs[i]>>]
Grp(xs) == [i \in 1..Len(xs) |-> <<"c", xs[i]>>]
Send(a, list) == [a EXCEPT !.sent = @ \o list, !.pool = {}]
Count(q, x) == Cardinality({i \in 1..Len(q) : q[i] = x})
SameBag(p, q) == Len(p) = Len(q) /\ \A i \in 1..Len(p) : Count(p, p[i]) = Count(q, p[i])
Recorded(a, msgs) == Note(a, ~SameBag(a.sent, msgs), "rec", "recorded messages are not those sent," \o Where(s))
Short(c) == Len(c) <= 16
Draw(a, e) ==
  LET a1 == Recorded(a, e.msgs)
      bad == Tr.fresh /\ \E i \in 1..Len(e.r) : e.r[i] \in a.drawn \/ Short(e.r[i]) \/ \E j \in 1..(i - 1) : e.r[i] = e.r[j]
  IN [Note(a1, bad, "chal", "drawn challenge is not fresh," \o Where(s))
        EXCEPT !.sent = <<>>, !.pool = @ \cup Range(e.r), !.drawn = @ \cup Range(e.r)]
Use(a, c, what) ==
  [Note(a, c \notin a.pool \/ (Tr.fresh /\ c \in a.used), "chal",
        what \o " was not drawn after the message it tests," \o Where(s)) EXCEPT !.used = @ \cup {c}]
RECURSIVE UseAll(_, _, _)
UseAll(a, cs, what) == IF cs = <<>> THEN a ELSE UseAll(Use(a, Head(cs), what), Tail(cs), what)

(* masks and blinding values are fresh and say nothing about the witness    *)
Masks(a, xs, what) ==
  LET bad == Tr.fresh /\ \E i \in 1..Len(xs) :
                xs[i] \in a.masks \/ xs[i] \in a.drawn \/ Short(xs[i]) \/ \E j \in 1..(i - 1) : xs[i] = xs[j]
  IN [Note(a, bad, "mask", what \o " is not fresh randomness," \o Where(s)) EXCEPT !.masks = @ \cup Range(xs)]

Hon == Tr.honest
-----------------------------------------------------------------------------
DoCirc(e) ==
  LET c == ReadZK(Tr.file)
      bad == e.c # c
      a1 == Note(aux, bad, "circ", "circuit read differs from the file")
      a2 == Note(a1, Tail(e.para) # Tr.para \/ Head(e.para) # 0, "circ", "parallel layers differ from the layout file")
  IN IF bad THEN /\ s' = [NoRun EXCEPT !.ok = FALSE, !.why = "circuit misread"]
                 /\ aux' = Lost(a2, "circuit misread")
     ELSE s' = NewZK(c, Evaluate(c)) /\ aux' = a2

DoEval(e) ==
  /\ s' = s
  /\ aux' = [Note(Note(Send(aux, Fld(e.out)), Hon /\ e.v # [i \in 1..Len(s.vals) |-> s.vals[i][1]], "eval", "gate values differ from the circuit's"),
                  Hon /\ e.out # s.vals[Len(s.circ)][1], "eval", "returned output differs") EXCEPT !.out = e.out]

DoInputCommit(e) ==
  LET kk == [a |-> e.a, s |-> e.s]
      n  == Len(e.s) - 1
      a1 == Send(aux, Grp(e.d) \o Grp(e.d2))
      a2 == Masks(a1, e.m \o e.rf, "input mask")
      good == /\ HonestCommit(kk, MLE(s.vals[1][1], SubSeq(e.s, 1, n)), e.rf[1], e.d[1], e.d[2])
              /\ HonestCommit(kk, LineEval(e.m, e.s[n]), e.rf[2], e.d2[1], e.d2[2])
  IN /\ s' = RecvInputCommit(s, kk, e.d, e.d2, e.m)
     /\ aux' = Note(a2, Hon /\ ~good, "commit", "input commitment")

DoOut(e) ==
  /\ s' = RecvOutput(s, e.r, <<>>, e.val, <<aux.out>>)
  /\ aux' = Note(UseAll(aux, e.r, "output point"), Hon /\ e.val # MLE(s.vals[Len(s.circ)][1], e.r), "msg", "output evaluation")

DoLayer(e) ==
  LET first == s.pc = "layer"
      s1 == IF first THEN [s EXCEPT !.alpha = e.al, !.beta = e.be, !.r1 = e.r1] ELSE CombineZK(s, e.al, e.be)
      bad == \/ e.i # s1.lay - 1
             \/ e.lens # <<GBits(s1), UBits(s1), UBits(s1)>>
             \/ first /\ (e.be # FZero \/ e.al # FOne)
      a1 == IF first THEN UseAll(aux, e.r1, "second output point")
            ELSE Use(Use(aux, e.al, "alpha"), e.be, "beta")
      a2 == Note(a1, e.r0 # s1.r0 \/ (~first /\ e.r1 # s1.r1), "chal", "points given to the prover are not the drawn challenges," \o Where(s1))
      bottom == s1.lay = 2
      kk == [a |-> e.a, s |-> e.s]
      a3 == IF bottom THEN Note(a2, e.m # s1.mI, "mask", "input mask differs from the committed one")
            ELSE Masks(a2, e.m \o <<e.rf>>, "layer mask")
      a4 == Note(a3, Hon /\ ~bottom /\ ~(Len(e.d) = 2 /\ HonestCommit(kk, PolyEval(SmallMask(e.m), e.s), e.rf, e.d[1], e.d[2])),
                 "commit", "layer mask commitment," \o Where(s1))
  IN IF bad THEN s' = s /\ aux' = Lost(aux, "unexpected layer")
     ELSE s' = BeginZK(s1, kk, e.d, e.m) /\ aux' = Send(a4, Grp(e.d))

DoMask(e) ==
  LET kk == [a |-> e.a, s |-> e.s]
      s1 == RecvMask(s, kk, e.d, e.m, e.sum)
      wf == Len(e.m) = 2 * MVars(s) + 7 /\ Len(e.s) = MVars(s) + 1
      a1 == Masks(Send(aux, Grp(e.d) \o Fld(<<e.sum>>)), e.m \o <<e.rf>>, "sumcheck mask")
      a2 == Note(a1, Hon /\ ~HonestCommit(kk, MaskEval(e.m, e.s), e.rf, e.d[1], e.d[2]), "commit", "sumcheck mask commitment," \o Where(s))
  IN IF ~wf THEN s' = s /\ aux' = Lost(Note(aux, TRUE, "mask", "sumcheck mask has the wrong shape"), "mask shape")
     ELSE s' = s1 /\ aux' = Note(a2, Hon /\ e.sum # MaskSum(s1), "msg", "mask sum," \o Where(s))

DoRho(e) == s' = ChalRho(s, e.v) /\ aux' = Use(aux, e.v, "rho")

DoRound(e, ph) ==
  LET mid == e.j > 0
      s0 == IF ~mid THEN s ELSE IF ph = 1 THEN ChalZ1(s, e.prev) ELSE ChalZ2(s, e.prev)
      a1 == IF mid THEN Use(aux, e.prev, "round challenge")
            ELSE Note(aux, e.prev # FZero /\ e.prev \notin aux.used, "chal", "prover given an unknown value," \o Where(s))
      s1 == IF ph = 1 THEN RecvP1(s0, e.poly) ELSE RecvZ2(s0, e.poly)
      good == IF ph = 1 THEN PolyIs(e.poly, LAMBDA x : HonestZ1At(s0, x), RoundDeg(s0))
              ELSE PolyIs(e.poly, LAMBDA x : HonestZ2At(s0, x), RoundDeg(s0))
      a2 == Note(a1, Hon /\ ~good, "msg", "phase " \o ToString(ph) \o " round " \o ToString(e.j) \o Where(s))
      ready == IF mid THEN s.pc = (IF ph = 1 THEN "c1" ELSE "c2") /\ s.round + 1 = e.j
               ELSE s.pc = (IF ph = 1 THEN "p1" ELSE "p2") /\ s.round = 0
      more == ~mid \/ s.round + 1 < UBits(s)
  IN IF ready /\ more THEN s' = s1 /\ aux' = Send(a2, Fld(e.poly))
     ELSE s' = s /\ aux' = Lost(aux, "unexpected round message")

DoBind(e) ==
  LET s0 == ChalZ1(s, e.prev)
      a1 == Use(aux, e.prev, "round challenge")
      a2 == Note(a1, e.ru # s0.ru, "chal", "point given for phase 2 is not the drawn challenges," \o Where(s))
  IN IF s.pc = "c1" /\ LastRound(s)
     THEN /\ s' = RecvVu(s0, e.vu)
          /\ aux' = Note(Send(a2, Fld(<<e.vu>>)), Hon /\ e.vu # HonestZu(s0), "msg", "first end value," \o Where(s))
     ELSE s' = s /\ aux' = Lost(aux, "first phase cut short")

DoEnd(e) ==
  LET s0 == ChalZ2(s, e.prev)
      a1 == Use(aux, e.prev, "round challenge")
  IN IF s.pc = "c2" /\ LastRound(s)
     THEN /\ s' = RecvEnd(s0, e.vu, e.vv)
          /\ aux' = Note(Send(a1, Fld(<<e.vv>>)), Hon /\ (e.vu # s0.vu \/ e.vv # HonestZv(s0)), "msg", "end values," \o Where(s))
     ELSE s' = s /\ aux' = Lost(aux, "second phase cut short")

DoFr(e) ==
  LET a1 == Note(aux, e.prev # LastOf(s.rv), "chal", "prover given an unknown value," \o Where(s))
      a2 == Note(a1, e.gen # WiredRelation(s, s.vu, s.vv), "rel", "wiring value," \o Where(s))
  IN /\ s' = RecvFr(s, e.poly)
     /\ aux' = Note(Send(a2, Fld(e.poly)), Hon /\ ~PolyIs(e.poly, LAMBDA x : HonestFrAt(s, FInt(x)), 2), "msg", "last round," \o Where(s))

Opened(a, e, true, what) == Note(Send(a, Grp(e.w) \o Grp(e.wa) \o Fld(<<e.v>>)), Hon /\ e.v # true, "commit", what \o Where(s))
(* the first opening shows the challenge of the last round                  *)
OpenState(c) == IF s.pc = "cfr" THEN ChalFr(s, c) ELSE s
OpenAux(c) == IF s.pc = "cfr" THEN Use(aux, c, "last round challenge") ELSE aux
DoOpenR(e) ==
  LET s0 == OpenState(LastOf(e.r))  a0 == OpenAux(LastOf(e.r))  which == IF e.k = 1 THEN "R1" ELSE "R2"
  IN IF Len(e.r) # 2 \/ s0.pc # "open" \/ which \in s0.opened THEN s' = s /\ aux' = Lost(aux, "unexpected opening")
     ELSE /\ s' = IF e.k = 1 THEN RecvOpen1(s0, e.r, e.v, e.w, e.wa) ELSE RecvOpen2(s0, e.r, e.v, e.w, e.wa)
          /\ aux' = Opened(a0, e, REval(s.R, e.r[1], e.r[2]), "layer mask opening " \o ToString(e.k) \o ",")
DoOpenM(e) ==
  LET s0 == OpenState(LastOf(e.r))  a0 == OpenAux(LastOf(e.r))
  IN IF Len(e.r) # MVars(s) \/ s0.pc # "open" \/ "M" \in s0.opened THEN s' = s /\ aux' = Lost(aux, "unexpected opening")
     ELSE /\ s' = RecvOpenM(s0, e.r, e.v, e.w, e.wa)
          /\ aux' = Opened(a0, e, MaskEval(s.m, e.r), "sumcheck mask opening,")
DoOpenI(e) ==
  /\ s' = RecvOpenI(s, e.r, e.z, e.v, e.w, e.wa)
  /\ aux' = Opened(aux, e, TrueInput(s), "input opening,")

DoFinish(e) == s' = s /\ aux' = [Recorded(aux, e.msgs) EXCEPT !.sent = <<>>]

(* The proof file: field elements as 32 bytes, least significant first, and *)
(* group elements as stored.                                                *)
DoFile(e) ==
  LET proof == SelectSeq(e.recs, LAMBDA r : r[1] \in {0, 1})
      want  == FoldLeft(LAMBDA acc, r : acc \o (IF r[1] = 1 THEN Reverse(r[2]) ELSE r[2]), <<>>, proof)
      a1 == Note(aux, e.bytes # want, "file", "proof file is not the recorded messages")
  IN s' = s /\ aux' = Note(a1, e.size # Len(e.bytes), "file", "reported size is not the number of bytes written")

Step ==
  LET e == Tr.ev[k]
      At_(x) == s.pc = x
  IN /\ ~aux.fin /\ ~aux.lost /\ k <= Len(Tr.ev)
     /\ k' = k + 1 /\ t' = t
     /\ IF e.e = "circ" THEN DoCirc(e)
        ELSE IF At_("none") THEN s' = s /\ aux' = Lost(aux, "message outside a run")
        ELSE IF e.e = "draw" THEN s' = s /\ aux' = Draw(aux, e)
        ELSE IF e.e = "eval" THEN DoEval(e)
        ELSE IF e.e = "icom" /\ At_("commit") THEN DoInputCommit(e)
        ELSE IF e.e = "out" /\ At_("output") THEN DoOut(e)
        ELSE IF e.e = "layer" /\ (At_("layer") \/ At_("combine")) THEN DoLayer(e)
        ELSE IF e.e = "mask" /\ At_("mask") THEN DoMask(e)
        ELSE IF e.e = "rho" /\ At_("rho") THEN DoRho(e)
        ELSE IF e.e = "p1" THEN DoRound(e, 1)
        ELSE IF e.e = "p2" THEN DoRound(e, 2)
        ELSE IF e.e = "bind" THEN DoBind(e)
        ELSE IF e.e = "fin" THEN DoEnd(e)
        ELSE IF e.e = "fr" /\ At_("fr") THEN DoFr(e)
        ELSE IF e.e = "oR" THEN DoOpenR(e)
        ELSE IF e.e = "oM" THEN DoOpenM(e)
        ELSE IF e.e = "oI" /\ At_("openI") THEN DoOpenI(e)
        ELSE IF e.e = "end" THEN DoFinish(e)
        ELSE IF e.e = "file" THEN DoFile(e)
        ELSE s' = s /\ aux' = Lost(aux, "unexpected " \o e.e)

Finish ==
  LET good == s.pc = "done" /\ s.ok /\ ~aux.lost
      pass == Tr.verdict = "pass"
      why  == IF s.why # "" THEN s.why ELSE IF aux.why # "" THEN aux.why ELSE "protocol not completed"
      a2 == Note(aux, pass /\ ~good, "sound", "accepted, but " \o why)
      a3 == Note(a2, ~pass /\ s.ok /\ ~aux.lost, "complete", "verdict " \o Tr.verdict \o " although every check held")
      a4 == Note(a3, Hon /\ ~pass, "accept", "honest run: verdict " \o Tr.verdict)
      has(x) == \E i \in 1..Len(Tr.ev) : Tr.ev[i].e = x
      a5 == Note(a4, Hon /\ ~has("eval"), "eval", "the circuit was not evaluated: verdict " \o Tr.verdict)
      a6 == Note(a5, Hon /\ ~has("circ"), "circ", "the circuit was not read: verdict " \o Tr.verdict)
  IN /\ ~aux.fin /\ (aux.lost \/ k > Len(Tr.ev))
     /\ PrintT(<<"RES", Tr.id, Texts(a6.found), good>>)
     /\ aux' = [a6 EXCEPT !.fin = TRUE]
     /\ UNCHANGED <<t, k, s>>

Next == Step \/ Finish
Spec == Init /\ [][Next]_vars
=============================================================================
