------------------------------ MODULE GKRTrace ------------------------------
(* Conformance: what the real programs exchanged is a behaviour of GKR.     *)
(*                                                                          *)
(* TRACES names a file with one recorded run per line: the circuit file     *)
(* given to the program, the events between its verifier and its prover,    *)
(* and its verdict.  Each run is one initial state; every event is one step *)
(* of the protocol specification.  Deviations are collected by kind:        *)
(*   circ     the circuit was not read as written                           *)
(*   eval     a gate value (or the returned output) is wrong                *)
(*   msg      an honest prover's message is not the protocol's message      *)
(*   chal     a challenge is reused, constant, leaked early or inconsistent *)
(*   sound    accepted although a check failed or the protocol was not run  *)
(*   complete rejected although every check held                           *)
(*   accept   an honest run was not accepted                                *)
EXTENDS Notes, GKR, Json, IOUtils, FiniteSets

Traces == ndJsonDeserialize(IOEnv.TRACES)

VARIABLES t, k, s, aux
vars == <<t, k, s, aux>>

Tr == Traces[t]
NoRun == [pc |-> "none", ok |-> TRUE, lay |-> 0]

Init == /\ t \in 1..Len(Traces)
        /\ k = 1
        /\ s = NoRun
        /\ aux = [found |-> <<>>, seen |-> {}, allok |-> TRUE, done |-> FALSE,
                  lost |-> FALSE, why |-> "", out |-> <<>>, fin |-> FALSE]

Note(a, bad, cat, msg) == IF bad THEN [a EXCEPT !.found = Jot(@, cat, msg)] ELSE a

Where(st) == " layer " \o ToString(st.lay - 1)

(* freshness of a challenge value                                           *)
Stale(a, c) == Tr.fresh /\ (c \in a.seen \/ Len(c) <= 16)
See(a, c, what, st) == [Note(a, Stale(a, c), "chal", what \o " is not a fresh challenge," \o Where(st)) EXCEPT !.seen = @ \cup {c}]
RECURSIVE SeeAll(_, _, _, _)
SeeAll(a, cs, what, st) == IF cs = <<>> THEN a ELSE SeeAll(See(a, Head(cs), what, st), Tail(cs), what, st)
Known(a, c) == c = FZero \/ c \in a.seen

Closed(st, a) == [a EXCEPT !.allok = @ /\ (st.pc = "none" \/ (st.ok /\ st.pc = "done")),
                   !.why = IF @ = "" /\ st.pc # "none" THEN (IF ~st.ok THEN st.why ELSE IF st.pc # "done" THEN "protocol not completed" ELSE "") ELSE @]

Lost(a, msg) == [a EXCEPT !.lost = TRUE, !.why = IF @ = "" THEN msg ELSE @]

(* more: the input layers of blocks 2, 3, ... where they differ from the    *)
(* file's                                                                   *)
File(b) == IF Tr.more = <<>> \/ b = 1 THEN Tr.file ELSE [Tr.file EXCEPT ![1] = Tr.more[b - 1]]
Expected(b) == IF Tr.kind = "linear" THEN ReadLinear(File(b)) ELSE ReadPlain(File(b))
Kind == IF Tr.kind = "linear" THEN "linear" ELSE "plain"

-----------------------------------------------------------------------------
DoCirc(e) ==
  LET a0 == Closed(s, aux)
      bad == Len(e.cs) # Pow2(e.nb) \/ \E b \in 1..Len(e.cs) : e.cs[b] # Expected(b)
      a1 == Note(a0, bad, "circ", "circuit read differs from the file")
      a2 == Note(a1, s.pc # "none" /\ s.ok /\ s.pc # "done", "complete", "copy abandoned although every check held")
      c  == Expected(1)
      v  == TLCEval(IF Tr.more = <<>> THEN <<Evaluate(c)>> ELSE [b \in 1..Pow2(e.nb) |-> Evaluate(Expected(b))])
      rv == TLCEval([i \in 1..Len(c) |-> [b \in 1..Pow2(e.nb) |-> IF Tr.more = <<>> THEN v[1][i] ELSE v[b][i]]])
  IN IF bad THEN /\ s' = [NoRun EXCEPT !.ok = FALSE]
                 /\ aux' = Lost(a1, "circuit misread")
     ELSE /\ s' = NewRun(Kind, c, e.nb, rv)
          /\ aux' = a2

DoEval(e) ==
  /\ s' = s
  /\ aux' = [Note(Note(aux, Tr.honest /\ e.v # s.vals, "eval", "gate values differ from the circuit's"),
                  Tr.honest /\ e.out # s.vals[Len(s.circ)], "eval", "returned output differs")
             EXCEPT !.out = e.out]

DoOut(e) ==
  LET a1 == SeeAll(aux, e.r \o e.rb, "output point", s)
  IN /\ s' = RecvOutput(s, e.r, e.rb, e.val, aux.out)
     /\ aux' = Note(a1, Tr.honest /\ Tr.msg /\ e.val # HonestOutput(s, e.r, e.rb), "msg", "output evaluation")

DoLayer(e) ==
  LET first == s.pc = "layer"
      s1 == IF first THEN [s EXCEPT !.alpha = e.al, !.beta = e.be, !.r1 = e.r1, !.claim = FMul(e.al, s.claim)]
            ELSE Combine(s, e.al, e.be)
      bad == \/ e.i # s1.lay - 1
             \/ e.lens # <<s.nb, GBits(s1), UBits(s1), UBits(s1)>>
             \/ first /\ e.be # FZero
      a1 == IF first THEN SeeAll(aux, e.r1, "second output point", s1)
            ELSE See(See(aux, e.al, "alpha", s1), e.be, "beta", s1)
      a2 == Note(a1, e.r0 # s1.r0 \/ (~first /\ e.r1 # s1.r1) \/ e.rb0 # s1.rb0, "chal",
                 "points given to the prover are not the drawn challenges," \o Where(s1))
  IN IF bad THEN s' = s /\ aux' = Lost(aux, "unexpected layer")
     ELSE s' = BeginLayer(s1) /\ aux' = a2

(* Round message; first the challenge of the previous round of this phase.  *)
DoRound(e, ph) ==
  LET mid  == e.j > 0
      s0   == IF ~mid THEN s ELSE CASE ph = 0 -> Chal0(s, e.prev) [] ph = 1 -> Chal1(s, e.prev) [] ph = 2 -> Chal2(s, e.prev)
      free == ph = 2 /\ IsCopyLayer(s) /\ e.prev = FZero
      a1   == IF mid THEN (IF free THEN aux ELSE See(aux, e.prev, "round challenge", s))
              ELSE Note(aux, Tr.fresh /\ ~Known(aux, e.prev), "chal", "prover given an unknown value," \o Where(s))
      s1   == CASE ph = 0 -> RecvP0(s0, e.poly) [] ph = 1 -> RecvP1(s0, e.poly) [] ph = 2 -> RecvP2(s0, e.poly, e.vu)
      hon  == CASE ph = 0 -> Honest0(s0) [] ph = 1 -> Honest1(s0) [] ph = 2 -> Honest2(s0)
      a2   == Note(a1, Tr.honest /\ Tr.msg /\ e.poly # hon, "msg",
                   "phase " \o ToString(ph) \o " round " \o ToString(e.j) \o Where(s))
      ready == IF mid THEN s.pc = (CASE ph = 0 -> "c0" [] ph = 1 -> "c1" [] ph = 2 -> "c2") /\ s.round + 1 = e.j
               ELSE s.pc = (CASE ph = 0 -> "p0" [] ph = 1 -> "p1" [] ph = 2 -> "p2") /\ s.round = 0
      more == ~mid \/ s.round + 1 < (IF ph = 0 THEN s.nb ELSE UBits(s))
  IN IF ready /\ more THEN s' = s1 /\ aux' = a2
     ELSE s' = s /\ aux' = Lost(aux, "unexpected round message")

DoBindB(e) ==
  IF s.nb = 0 THEN /\ s' = s
                   /\ aux' = Note(aux, Tr.fresh /\ ~Known(aux, e.prev), "chal", "prover given an unknown value," \o Where(s))
  ELSE IF s.pc = "c0" /\ s.round + 1 = s.nb
  THEN s' = Chal0(s, e.prev) /\ aux' = See(aux, e.prev, "copy challenge", s)
  ELSE s' = s /\ aux' = Lost(aux, "copy phase cut short")

DoBind(e) ==
  LET s1 == Chal1(s, e.prev)
  IN IF s.pc = "c1" /\ s.round + 1 = UBits(s)
     THEN /\ s' = s1
          /\ aux' = Note(See(aux, e.prev, "round challenge", s), e.ru # s1.ru, "chal",
                         "point given for phase 2 is not the drawn challenges," \o Where(s))
     ELSE s' = s /\ aux' = Lost(aux, "first phase cut short")

DoFin(e) ==
  LET free == IsCopyLayer(s) /\ e.prev = FZero
      s0 == Chal2(s, e.prev)
      s1 == RecvFinal(s0, e.vu, e.vv)
      s2 == IF LastLayer(s1) THEN CheckInput(s1) ELSE s1
      a1 == IF free THEN aux ELSE See(aux, e.prev, "round challenge", s)
      a2 == Note(a1, Tr.honest /\ Tr.msg /\ (e.vu # HonestVu(s0) \/ e.vv # HonestVv(s0)), "msg", "end values" \o Where(s))
  IN IF s.pc = "c2" /\ s.round + 1 = UBits(s) THEN s' = s2 /\ aux' = a2
     ELSE s' = s /\ aux' = Lost(aux, "second phase cut short")

Step ==
  LET e == Tr.ev[k]
  IN /\ ~aux.fin /\ ~aux.lost /\ k <= Len(Tr.ev)
     /\ k' = k + 1 /\ t' = t
     /\ IF e.e = "circ" THEN DoCirc(e)
        ELSE IF s.pc = "none" \/ s.pc = "done" THEN s' = s /\ aux' = Lost(aux, "message outside a run")
        ELSE IF e.e = "eval" THEN DoEval(e)
        ELSE IF e.e = "out" /\ s.pc = "output" THEN DoOut(e)
        ELSE IF e.e = "layer" /\ (s.pc = "layer" \/ (s.pc = "combine" /\ ~LastLayer(s))) THEN DoLayer(e)
        ELSE IF e.e = "p0" THEN DoRound(e, 0)
        ELSE IF e.e = "p1" THEN DoRound(e, 1)
        ELSE IF e.e = "p2" THEN DoRound(e, 2)
        ELSE IF e.e = "bindb" THEN DoBindB(e)
        ELSE IF e.e = "bind" THEN DoBind(e)
        ELSE IF e.e = "fin" THEN DoFin(e)
        ELSE s' = s /\ aux' = Lost(aux, "unexpected " \o e.e)

(* The program's verdict against the specification's.                       *)
Finish ==
  LET a0   == Closed(s, aux)
      nruns == Cardinality({i \in 1..Len(Tr.ev) : Tr.ev[i].e = "circ"})
      good == a0.allok /\ ~aux.lost /\ nruns = Tr.runs
      pass == Tr.verdict = "pass"
      why  == IF a0.why = "" THEN "not every copy was run" ELSE a0.why
      a1 == Note(a0, pass /\ ~good, "sound", "accepted, but " \o why)
      a2 == Note(a1, ~pass /\ s.ok /\ aux.allok /\ ~aux.lost, "complete",
                 "verdict " \o Tr.verdict \o " although every check held")
      a3 == Note(a2, Tr.honest /\ ~pass, "accept", "honest run: verdict " \o Tr.verdict)
      nevals == Cardinality({i \in 1..Len(Tr.ev) : Tr.ev[i].e = "eval"})
      a4 == Note(a3, Tr.honest /\ nevals < Tr.runs, "eval", "a copy was not evaluated: verdict " \o Tr.verdict)
      a5 == Note(a4, Tr.honest /\ nruns < Tr.runs, "circ", "a copy was not read: verdict " \o Tr.verdict)
  IN /\ ~aux.fin /\ (aux.lost \/ k > Len(Tr.ev))
     /\ PrintT(<<"RES", Tr.id, Texts(a5.found), good>>)
     /\ aux' = [a5 EXCEPT !.fin = TRUE]
     /\ UNCHANGED <<t, k, s>>

Next == Step \/ Finish
Spec == Init /\ [][Next]_vars
=============================================================================
