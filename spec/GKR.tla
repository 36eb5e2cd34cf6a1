-------------------------------- MODULE GKR --------------------------------
(* The interactive layered sumcheck protocol, verifier side and honest      *)
(* prover side, for the three interactive programs:                         *)
(*   kind = "linear"  : linear-time GKR; layer 2 of the circuit copies the  *)
(*                      inputs (DIRECT gates), input opened at one point    *)
(*   kind = "plain"   : per-copy (nb = 0), blocked (2^nb copies) and        *)
(*                      multi-threaded programs                             *)
(* A protocol state is a record; each step of the protocol is an operator   *)
(* from (state, message or challenge) to the next state.  GKRModel runs it  *)
(* with all small-field provers and challenges, GKRTrace with what the real *)
(* programs exchanged.                                                      *)
(*                                                                          *)
(* Layers are numbered from 1 (input); the layer being reduced is s.lay and *)
(* its operands are in layer s.lay - 1.  s.ok says that every verifier      *)
(* check up to now held.                                                    *)
EXTENDS Circuit

-----------------------------------------------------------------------------
(* values of a layer in every copy: <<copy 1's table, ..., copy 2^nb's>>    *)
Replicate(n, x) == [i \in 1..n |-> x]

NewRun(kind, circ, nb, vals) ==
  [ kind |-> kind, circ |-> circ, nb |-> nb, vals |-> vals,
    pc |-> "output", lay |-> Len(circ), round |-> 0,
    ok |-> TRUE, why |-> "", claim |-> FZero, pend |-> <<FZero>>,
    alpha |-> FOne, beta |-> FZero,
    r0 |-> <<>>, r1 |-> <<>>, rb0 |-> <<>>,          \* points of the current claim
    rb |-> <<>>, ru |-> <<>>, rv |-> <<>>,           \* challenges of this layer
    W |-> <<>>, terms |-> <<>>,                      \* gate weights, gate relation
    TB |-> <<>>, B |-> <<>>, eqb |-> FOne,           \* tables over copies
    Vb |-> <<>>, T |-> <<>>, E |-> <<>>, U |-> <<>>, \* tables over wires
    dr |-> FZero, p1claim |-> FZero, vu |-> FZero, vv |-> FZero ]

Fail(s, cond, msg) == IF cond THEN s ELSE [s EXCEPT !.ok = FALSE, !.why = IF s.why = "" THEN msg ELSE s.why]

GBits(s) == Bits(s.circ[s.lay])
UBits(s) == Bits(s.circ[s.lay - 1])
IsCopyLayer(s) == s.kind = "linear" /\ s.lay = 2

(* true value of layer k at wire point r and copy point rb                  *)
LayerAt(s, k, r, rb) == MLE([b \in 1..Len(s.vals[k]) |-> MLE(s.vals[k][b], r)], rb)

-----------------------------------------------------------------------------
(* Output claim at a random point (r0, rb0).                                *)
(* out is the output the prover announced (one table per copy), val its     *)
(* evaluation at the point.                                                 *)
RecvOutput(s, r, rb, val, out) ==
  Fail([s EXCEPT !.pc = "layer", !.claim = val, !.r0 = r, !.r1 = r, !.rb0 = rb],
       val = MLE([b \in 1..Len(out) |-> MLE(out[b], r)], rb), "output evaluation")

(* Start of a layer: claim is alpha V(r0,rb0) + beta V(r1,rb0).             *)
BeginLayer(s) ==
  LET t0 == EqTab(s.alpha, s.r0)
      t1 == EqTab(s.beta, s.r1)
      w  == TLCEval([g \in 1..Len(t0) |-> FAdd(t0[g], t1[g])])
      tb == s.vals[s.lay - 1]
  IN [s EXCEPT !.pc = IF s.nb = 0 THEN "p1" ELSE "p0", !.round = 0,
        !.W = w, !.terms = Terms(s.circ[s.lay]),
        !.TB = tb, !.B = EqTab(FOne, s.rb0), !.eqb = FOne,
        !.rb = <<>>, !.ru = <<>>, !.rv = <<>>,
        !.Vb = IF s.nb = 0 THEN tb[1] ELSE <<>>,
        !.T = IF s.nb = 0 THEN tb[1] ELSE <<>>, !.E = <<FOne>>, !.U = <<>>]

-----------------------------------------------------------------------------
(* Round polynomials of the honest prover, evaluated at the integer x.      *)
At(x, t0, t1) == IF x = 0 THEN t0 ELSE IF x = 1 THEN t1
                 ELSE FAdd(t0, FMul(FInt(x), FSub(t1, t0)))
Sel(x, bit, e) == IF bit = 1 THEN (IF x = 0 THEN FZero ELSE IF x = 1 THEN e ELSE FMul(FInt(x), e))
                  ELSE (IF x = 0 THEN e ELSE IF x = 1 THEN FZero ELSE FMul(FSub(FOne, FInt(x)), e))

TermCoef(s, q) == IF q[5] = FOne THEN s.W[q[1] + 1] ELSE FMul(q[5], s.W[q[1] + 1])

LayerSum(s, tab) == FoldLeft(LAMBDA acc, q :
     FAdd(acc, FMul(TermCoef(s, q), F(q[2], tab[q[3] + 1], tab[q[4] + 1]))), FZero, s.terms)

Honest0At(s, x) ==
  FSum([k \in 1..(Len(s.TB) \div 2) |->
     LET tx == TLCEval([w \in 1..Len(s.TB[1]) |-> At(x, s.TB[2*k - 1][w], s.TB[2*k][w])])
     IN FMul(At(x, s.B[2*k - 1], s.B[2*k]), LayerSum(s, tx))])
Honest0(s) == Interp4(Honest0At(s, 0), Honest0At(s, 1), Honest0At(s, 2), Honest0At(s, 3))

Fold1At(s, x) == TLCEval([i \in 1..(Len(s.T) \div 2) |-> At(x, s.T[2*i - 1], s.T[2*i])])
(* tx: the values of the operand layer with this round's variable set to x  *)
Sum1At(s, x, tx) ==
  LET j == s.round
  IN FMul(s.eqb, FoldLeft(LAMBDA acc, q :
       LET u == q[3]
           e == Sel(x, Bit(u, j), s.E[(u % Pow2(j)) + 1])
       IN IF e = FZero THEN acc
          ELSE FAdd(acc, FMul(FMul(TermCoef(s, q), e), F(q[2], tx[(u \div Pow2(j + 1)) + 1], s.Vb[q[4] + 1]))),
       FZero, s.terms))
Honest1At(s, x) == Sum1At(s, x, Fold1At(s, x))
Honest1(s) == Interp3(Honest1At(s, 0), Honest1At(s, 1), Honest1At(s, 2))

(* hu: the value of the first operand                                       *)
Sum2At(s, x, tx, hu) ==
  LET j == s.round
  IN FMul(s.eqb, FoldLeft(LAMBDA acc, q :
       LET v == q[4]
           e == Sel(x, Bit(v, j), s.E[(v % Pow2(j)) + 1])
       IN IF q[2] = DIRECT \/ e = FZero THEN acc
          ELSE FAdd(acc, FMul(FMul(FMul(TermCoef(s, q), s.U[q[3] + 1]), e), F(q[2], hu, tx[(v \div Pow2(j + 1)) + 1]))),
       FZero, s.terms))
Honest2At(s, x) == Sum2At(s, x, Fold1At(s, x), MLE(s.Vb, s.ru))
Honest2(s) == Interp3(Honest2At(s, 0), Honest2At(s, 1), Honest2At(s, 2))

HonestOutput(s, r, rb) == LayerAt(s, Len(s.circ), r, rb)
HonestVu(s) == MLE(s.Vb, s.ru)
HonestVv(s) == MLE(s.Vb, s.rv)

-----------------------------------------------------------------------------
(* Rounds: the verifier receives a polynomial, checks it against its claim, *)
(* then draws a challenge.                                                  *)
RoundSum(p) == FAdd(PEval(p, FZero), PEval(p, FOne))

RecvP0(s, p) == Fail([s EXCEPT !.pc = "c0", !.pend = p], RoundSum(p) = s.claim, "copy round")
Chal0(s, c) ==
  LET b2 == FoldLow(s.B, c)
      tb2 == TLCEval([k \in 1..(Len(s.TB) \div 2) |-> [w \in 1..Len(s.TB[1]) |->
                 FAdd(s.TB[2*k - 1][w], FMul(c, FSub(s.TB[2*k][w], s.TB[2*k - 1][w])))]])
      last == s.round + 1 = s.nb
  IN [s EXCEPT !.pc = IF last THEN "p1" ELSE "p0", !.round = IF last THEN 0 ELSE s.round + 1,
        !.claim = PEval(s.pend, c), !.rb = Append(s.rb, c), !.B = b2, !.TB = tb2,
        !.eqb = IF last THEN b2[1] ELSE s.eqb,
        !.Vb = IF last THEN tb2[1] ELSE <<>>, !.T = IF last THEN tb2[1] ELSE <<>>]

RecvP1(s, p) == Fail([s EXCEPT !.pc = "c1", !.pend = p], RoundSum(p) = s.claim, "first-operand round")
Chal1(s, c) ==
  LET last == s.round + 1 = UBits(s)
      t2 == FoldLow(s.T, c)
      e2 == EqGrow(s.E, c)
      cl == PEval(s.pend, c)
      r2 == Append(s.ru, c)
      dr2 == FoldLeft(LAMBDA acc, q : IF q[2] = DIRECT
                 THEN FAdd(acc, FMul(s.W[q[1] + 1], e2[q[3] + 1])) ELSE acc, FZero, s.terms)
  IN IF last
     THEN [s EXCEPT !.pc = "p2", !.round = 0, !.claim = cl, !.p1claim = cl, !.ru = r2,
             !.U = e2, !.E = <<FOne>>, !.T = s.Vb, !.dr = dr2]
     ELSE [s EXCEPT !.pc = "p1", !.round = s.round + 1, !.claim = cl, !.ru = r2, !.E = e2, !.T = t2]

(* x is the prover's announced value of the first operand                   *)
RecvP2(s, p, x) ==
  Fail([s EXCEPT !.pc = "c2", !.pend = p, !.vu = x],
       FAdd(RoundSum(p), FMul(s.dr, x)) = s.claim, "second-operand round")
Chal2(s, c) ==
  LET last == s.round + 1 = UBits(s)
  IN [s EXCEPT !.pc = IF last THEN "fin" ELSE "p2", !.round = IF last THEN 0 ELSE s.round + 1,
        !.claim = FAdd(PEval(s.pend, c), FMul(s.dr, s.vu)),
        !.rv = Append(s.rv, c), !.E = EqGrow(s.E, c), !.T = FoldLow(s.T, c)]

(* The two final values of a layer; E is the eq-table of rv here.           *)
WiredRelation(s, x, y) ==                         \* all gates but direct copies
  FMul(s.eqb, FoldLeft(LAMBDA acc, q : IF q[2] = DIRECT THEN acc ELSE
         FAdd(acc, FMul(FMul(FMul(TermCoef(s, q), s.U[q[3] + 1]), s.E[q[4] + 1]), F(q[2], x, y))),
         FZero, s.terms))
LayerRelation(s, x, y) == FAdd(FMul(s.dr, x), WiredRelation(s, x, y))
RecvFinal(s, x, y) ==
  Fail(Fail([s EXCEPT !.pc = "combine", !.vu = x, !.vv = y],
            s.claim = LayerRelation(s, x, y), "layer equation"),
       IsCopyLayer(s) => s.p1claim = FMul(s.dr, x), "copy-layer equation")

(* Input check: linear opens the first point only.                          *)
InputOk(s) ==
  /\ s.vu = LayerAt(s, 1, s.ru, s.rb)
  /\ s.kind # "linear" => s.vv = LayerAt(s, 1, s.rv, s.rb)
CheckInput(s) == Fail([s EXCEPT !.pc = "done"], InputOk(s), "input equation")

(* Next layer: the two values are combined with fresh alpha, beta.          *)
Combine(s, al, be) ==
  [s EXCEPT !.pc = "layer", !.lay = s.lay - 1, !.alpha = al, !.beta = be,
     !.r0 = s.ru, !.r1 = s.rv, !.rb0 = s.rb,
     !.claim = FAdd(FMul(al, s.vu), FMul(be, s.vv))]
LastLayer(s) == s.lay = 2
=============================================================================
