------------------------------ MODULE GKRModel ------------------------------
(* The protocol of GKR over a small field, explored exhaustively.           *)
(*                                                                          *)
(* Adv = FALSE: the prover is honest; for all circuits, inputs and          *)
(*   challenges every check holds and every claim is true (completeness).   *)
(* Adv = TRUE: the prover sends anything; a false claim stays false unless  *)
(*   a challenge hits one of at most deg(poly) values ("lucky"), and a      *)
(*   finished layer with a false claim either failed a check, was lucky, or *)
(*   left a false end value, which the next claim inherits unless (alpha,   *)
(*   beta) is lucky and which the input check refuses (soundness).          *)
(* A behaviour runs one layer, started from every claim the layer above can *)
(* leave, so layers compose.                                                *)
EXTENDS GKR, FiniteSets

CONSTANTS Adv, KindC, NB, Full

FF == 0..(P - 1)
Two == {0, 1}

(* top layers: every gate type with every wiring of two operands, next to a *)
(* second gate                                                              *)
Ops == IF KindC = "linear"
       THEN {<<ty, u, v>> : ty \in {ADD, MUL, MINUS, XOR, NAAB}, u \in Two, v \in Two}
            \cup {<<ty, u, 0>> : ty \in {NOT, RELAY}, u \in Two}
            \cup {<<SUM, 0, v>> : v \in 0..2} \cup {<<DUMMY, 0, 0>>}
       ELSE {<<ty, u, v>> : ty \in {ADD, MUL}, u \in Two, v \in Two} \cup {<<DUMMY, 0, 0>>}
Few == IF KindC = "linear"
       THEN {<<MUL, 0, 1>>, <<XOR, 1, 0>>, <<NOT, 1, 0>>, <<SUM, 0, 2>>} ELSE {<<MUL, 0, 1>>, <<ADD, 1, 1>>}
Seconds == IF Full THEN {<<DUMMY, 0, 0>>, <<MUL, 1, 1>>, <<ADD, 0, 1>>} ELSE {<<MUL, 1, 1>>}
Firsts == IF Full \/ ~Adv THEN Ops ELSE Few
Tops == {<<a, b>> : a \in Firsts, b \in Seconds}

Ins == IF Full THEN FF \X FF ELSE {<<1, 2 % P>>, <<P - 1, P - 1>>, <<0, 1>>}
MkIn(x) == << <<INPUT, x[1], 0>>, <<INPUT, x[2], 0>> >>
Circ(top, x) == IF KindC = "linear" THEN <<MkIn(x), CopyLayer(MkIn(x)), top>>
                ELSE <<MkIn(x), top>>

(* values of all copies: copy b has its own inputs                          *)
ValsOf(c, x, NBv) ==
  [i \in 1..Len(c) |-> [b \in 1..Pow2(NBv) |->
     EvalFrom(c, 2, <<[w \in 1..2 |-> (x[w] + (b - 1) * (w + 1)) % P]>>)[i]]]

Pts == IF Full THEN FF ELSE {0, P - 1}
PtsB == [1..NB -> IF Full THEN FF ELSE {1, P - 1}]
Scal == IF Full THEN FF ELSE {1, P - 1}

VARIABLES s, start, lucky
vars == <<s, start, lucky>>

TrueClaim(x) == FAdd(FMul(x.alpha, LayerAt(x, x.lay, x.r0, x.rb0)), FMul(x.beta, LayerAt(x, x.lay, x.r1, x.rb0)))

Init ==
  \E top \in Tops, x \in Ins, l \in 2..(IF KindC = "linear" THEN 3 ELSE 2) :
  \E a \in Scal, b \in Scal \cup {0}, p0 \in Pts, p1 \in Pts, pb \in PtsB, cl \in FF :
    LET c == Circ(top, x)
        r == [NewRun(KindC, c, NB, TLCEval(ValsOf(c, x, NB))) EXCEPT
                !.lay = l, !.alpha = a, !.beta = b, !.r0 = <<p0>>, !.r1 = <<p1>>, !.rb0 = pb]
        z == [r EXCEPT !.claim = cl]
    IN /\ Adv \/ cl = TrueClaim(r)
       /\ start = (cl = TrueClaim(r))
       /\ s = BeginLayer(z)
       /\ lucky = FALSE

(* the true value of the claim in the middle of a layer                     *)
Truth(x) ==
  CASE x.pc = "p0" -> RoundSum(Honest0(x))
    [] x.pc = "p1" -> RoundSum(Honest1(x))
    [] x.pc = "p2" -> FAdd(RoundSum(Honest2(x)), FMul(x.dr, HonestVu(x)))
    [] x.pc = "fin" -> LayerRelation(x, HonestVu(x), HonestVv(x))
IsTrue(x) == x.claim = Truth(x)

Quads(x, off) == {<<a, b, (x - off - 2*a - b) % P>> : a \in FF, b \in FF}
Cubics(x) == {<<a, b, c, (x - 2*a - b - c) % P>> : a \in FF, b \in FF, c \in FF}

Polys0 == IF ~Adv THEN {Honest0(s)} ELSE Cubics(s.claim)
Polys1 == IF ~Adv THEN {Honest1(s)} ELSE Quads(s.claim, 0)
Vus    == IF ~Adv THEN {HonestVu(s)} ELSE IF s.dr = FZero THEN {0} ELSE FF
Polys2(x) == IF ~Adv THEN {Honest2(s)} ELSE Quads(s.claim, FMul(s.dr, x))

Clean(x) == [x EXCEPT !.pend = <<FZero>>]
Challenge(nxt, was) == /\ s' = Clean(nxt)
                       /\ lucky' = (lucky \/ (~was /\ IsTrue(nxt) /\ ~(IsCopyLayer(s) /\ s.pc = "c2")))
                       /\ UNCHANGED start

(* the sumcheck polynomial of this round is remembered as pend: the claim   *)
(* before it was true iff pend sums to the truth, which Chal destroys, so   *)
(* truth is carried in `was'                                                *)
WasTrue0 == s.claim = RoundSum(Honest0(s))
WasTrue1 == s.claim = RoundSum(Honest1(s))
WasTrue2 == s.claim = FAdd(RoundSum(Honest2(s)), FMul(s.dr, HonestVu(s)))

Next ==
  \/ s.pc = "p0" /\ \E p \in Polys0 : s' = RecvP0(s, p) /\ UNCHANGED <<start, lucky>>
  \/ s.pc = "c0" /\ \E c \in FF : Challenge(Chal0(s, c), WasTrue0)
  \/ s.pc = "p1" /\ \E p \in Polys1 : s' = RecvP1(s, p) /\ UNCHANGED <<start, lucky>>
  \/ s.pc = "c1" /\ \E c \in FF : Challenge(Chal1(s, c), WasTrue1)
  \/ s.pc = "p2" /\ \E x \in Vus : \E p \in Polys2(x) : s' = RecvP2(s, p, x) /\ UNCHANGED <<start, lucky>>
  \/ s.pc = "c2" /\ \E c \in (IF IsCopyLayer(s) THEN {0} ELSE FF) : Challenge(Chal2(s, c), WasTrue2)
  \/ s.pc = "fin" /\ \E x \in (IF Adv THEN FF ELSE {HonestVu(s)}), y \in (IF Adv THEN FF ELSE {HonestVv(s)}) :
        LET f == RecvFinal(s, x, y)
        IN /\ s' = IF LastLayer(f) THEN CheckInput(f) ELSE f
           /\ UNCHANGED <<start, lucky>>

Ended == s.pc \in {"combine", "done"}

(* completeness *)
Complete == ~Adv => s.ok
ClaimsTrue == (~Adv /\ s.pc \in {"p0", "p1", "p2", "fin"}) => IsTrue(s)

(* soundness of one layer *)
EndTrue == s.vu = HonestVu(s) /\ s.vv = HonestVv(s)
LayerSound == (Ended /\ s.ok /\ ~start /\ ~lucky) =>
                 /\ s.pc = "combine"          \* never past the input check
                 /\ ~EndTrue
(* few challenges are lucky *)
LuckBound ==
  /\ (s.pc = "c0" /\ s.ok /\ ~WasTrue0) => Cardinality({c \in FF : IsTrue(Chal0(s, c))}) <= 3
  /\ (s.pc = "c1" /\ s.ok /\ ~WasTrue1) => Cardinality({c \in FF : IsTrue(Chal1(s, c))}) <= 2
  /\ (s.pc = "c2" /\ s.ok /\ ~WasTrue2 /\ ~IsCopyLayer(s)) => Cardinality({c \in FF : IsTrue(Chal2(s, c))}) <= 2
  /\ (s.pc = "combine" /\ ~EndTrue) =>
       Cardinality({ab \in FF \X FF : LET n == Combine(s, ab[1], ab[2]) IN n.claim = TrueClaim(n)}) <= P
(* an honest run never stops with a false end value *)
HonestEnd == (~Adv /\ Ended) => EndTrue
(* a wrong output vector agrees with the true one at few points *)
ASSUME \A d1 \in FF, d2 \in FF : <<d1, d2>> # <<0, 0>> =>
          Cardinality({r \in FF : MLE(<<d1, d2>>, <<r>>) = 0}) <= 1
=============================================================================
