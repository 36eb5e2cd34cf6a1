--------------------------------- MODULE ZK ---------------------------------
(* The zero-knowledge protocol: GKR's layered sumcheck in which             *)
(*  - every layer's values V are replaced by V + Z * sum over c of R(.,c),  *)
(*    Z(x) = product of x_i(1 - x_i), R a fresh quadratic mask committed    *)
(*    one layer before its values are claimed (input: m1 + m2 x_last);      *)
(*  - every layer's sum is taken over one more variable c and a fresh mask  *)
(*    polynomial, scaled by a challenge rho drawn after commitment to it    *)
(*    and to its sum, is added;                                             *)
(*  - instead of the input and mask values the prover opens commitments.    *)
(*                                                                          *)
(* Layers are numbered as in GKR; ub operand variables, variables of the    *)
(* mask polynomial are u_1..u_ub, v_1..v_ub, c.                             *)
EXTENDS GKR, VPD

NewZK(circ, vals) ==
  [ kind |-> "linear", circ |-> circ, nb |-> 0, vals |-> [i \in 1..Len(vals) |-> <<vals[i]>>],
    pc |-> "commit", lay |-> Len(circ), round |-> 0,
    ok |-> TRUE, why |-> "", claim |-> FZero, pend |-> <<FZero>>,
    alpha |-> FOne, beta |-> FZero, r0 |-> <<>>, r1 |-> <<>>, ru |-> <<>>, rv |-> <<>>, rc |-> FZero,
    W |-> <<>>, terms |-> <<>>, eqb |-> FOne,
    Vb |-> <<>>, T |-> <<>>, E |-> <<>>, U |-> <<>>, dr |-> FZero, vu |-> FZero, vv |-> FZero,
    \* masks: of the layer being reduced (weights, points, commitment), of its operands
    preZu |-> FZero, preZv |-> FZero, preU |-> FZero, preV |-> FZero,
    R |-> <<>>, dR |-> FZero, nR |-> <<>>, ndR |-> FZero, kR |-> [a |-> FZero, s |-> <<>>],
    sumR |-> <<FZero>>, oldS |-> FZero,
    z |-> FOne, iv |-> FOne,
    m |-> <<>>, dM |-> FZero, kM |-> [a |-> FZero, s |-> <<>>], msum |-> FZero, rho |-> FZero,
    mfix |-> FZero, mrem |-> FZero, uni |-> <<>>,
    kI |-> [a |-> FZero, s |-> <<>>], dI |-> FZero, dI2 |-> FZero, mI |-> <<>>,
    o1 |-> FZero, o2 |-> FZero, oM |-> FZero, opened |-> {} ]

Top(s) == s.lay = Len(s.circ)
MVars(s) == 2 * UBits(s) + 1

(* value and sum over c of a layer mask                                     *)
REval(R, x, c) == PolyEval(SmallMask(R), <<x, c>>)
SumOverC(R) == IF Len(R) = 2 THEN R
               ELSE << FAdd(FAdd(FDbl(R[1]), R[4]), R[5]), FAdd(FDbl(R[2]), R[6]), FDbl(R[3]) >>
ZOf(r) == FoldLeft(LAMBDA acc, x : FMul(acc, FMul(x, FOneMinus(x))), FOne, r)
IvOf(r) == FoldLeft(LAMBDA acc, x : FMul(acc, FOneMinus(x)), FOne, r)
LastOf(r) == r[Len(r)]

-----------------------------------------------------------------------------
(* Input commitment.                                                        *)
RecvInputCommit(s, k, d, d2, m) ==
  Fail([s EXCEPT !.pc = "output", !.kI = k, !.dI = d[1], !.dI2 = d2[1], !.mI = m],
       CommitOk(k, d[1], d[2]) /\ CommitOk(k, d2[1], d2[2]), "input commitment check")

(* Start of a layer with the commitment to its operands' mask (none for the *)
(* input, whose mask is part of the input commitment).                      *)
BeginZK(s, k, d, nR) ==
  LET b == BeginLayer(s)
      s1 == [b EXCEPT !.pc = "mask", !.kR = k, !.ndR = IF Len(d) = 0 THEN FZero ELSE d[1], !.nR = nR,
               !.sumR = SumOverC(nR), !.z = FOne, !.iv = FOne,
               !.oldS = IF s.R = <<>> THEN FZero
                        ELSE FAdd(FMul(FMul(s.alpha, s.preZu), PEval(SumOverC(s.R), s.preU)),
                                  FMul(FMul(s.beta, s.preZv), PEval(SumOverC(s.R), s.preV)))]
  IN Fail(s1, IF s.lay = 2 THEN TRUE ELSE Len(d) = 2 /\ CommitOk(k, d[1], d[2]), "mask commitment check")
RecvMask(s, k, d, m, sum) ==
  LET u == TLCEval([i \in 1..MVars(s) |-> MaskUni(m, i)])
  IN Fail([s EXCEPT !.pc = "rho", !.kM = k, !.dM = d[1], !.m = m, !.msum = sum, !.uni = u,
             !.mfix = FZero, !.mrem = FSum([i \in 1..MVars(s) |-> PEval(u[i], FOne)])],
          CommitOk(k, d[1], d[2]), "sumcheck mask commitment check")
ChalRho(s, c) == [s EXCEPT !.pc = "p1", !.rho = c, !.claim = FAdd(s.claim, FMul(c, s.msum))]
(* sum of the mask polynomial over the cube                                 *)
MaskSum(s) == FAdd(FMul(FInt(Pow2(MVars(s))), MaskConst(s.m)), FMul(FInt(Pow2(MVars(s) - 1)), s.mrem))

(* mask polynomial with variable i (1-based) set to x, variables before it  *)
(* bound and summed over the cube for those after it                        *)
MaskPart(s, i, x) ==
  LET n == MVars(s) - i
      h == FAdd(FAdd(MaskConst(s.m), s.mfix), PEval(s.uni[i], x))
  IN IF n = 0 THEN h ELSE FAdd(FMul(FInt(Pow2(n)), h),
                               FMul(FInt(Pow2(n - 1)), FSub(s.mrem, PEval(s.uni[i], FOne))))

(* Honest round polynomials at the integer x.                               *)
LastRound(s) == s.round + 1 = UBits(s)
MaskedFold(s, x) ==
  LET t == Fold1At(s, x)  fx == FInt(x)
  IN IF ~LastRound(s) THEN t
     ELSE << FAdd(t[1], FMul(FMul(s.z, FMul(fx, FOneMinus(fx))), PEval(s.sumR, fx))) >>
CarryAt(s, x) == FMul(FMul(s.iv, FOneMinus(x)), s.oldS)
HonestZ1At(s, x) == FAdd(FAdd(Sum1At(s, x, MaskedFold(s, x)), CarryAt(s, FInt(x))),
                         FMul(s.rho, MaskPart(s, s.round + 1, FInt(x))))
HonestZ2At(s, x) == FAdd(FAdd(Sum2At(s, x, MaskedFold(s, x), s.vu), CarryAt(s, FInt(x))),
                         FMul(s.rho, MaskPart(s, UBits(s) + s.round + 1, FInt(x))))
HonestFrAt(s, c) ==
  FAdd(FAdd(FMul(c, WiredRelation(s, s.vu, s.vv)),
            IF s.R = <<>> THEN FZero
            ELSE FMul(s.iv, FAdd(FMul(FMul(s.alpha, s.preZu), REval(s.R, s.preU, c)),
                                 FMul(FMul(s.beta, s.preZv), REval(s.R, s.preV, c))))),
       FMul(s.rho, MaskPart(s, MVars(s), c)))
HonestZu(s) == FAdd(MLE(s.Vb, s.ru), FMul(ZOf(s.ru), PEval(s.sumR, LastOf(s.ru))))
HonestZv(s) == FAdd(MLE(s.Vb, s.rv), FMul(ZOf(s.rv), PEval(s.sumR, LastOf(s.rv))))
(* p is the polynomial with values H(0..deg)                                *)
PolyIs(p, H(_), deg) == Len(p) <= 6 /\ \A x \in 0..(IF Len(p) > deg THEN Len(p) - 1 ELSE deg) : PEval(p, FInt(x)) = H(x)
RoundDeg(s) == IF LastRound(s) THEN 5 ELSE 2

-----------------------------------------------------------------------------
(* Rounds.                                                                  *)
Bound(s, c, i) == [s EXCEPT !.mfix = FAdd(@, PEval(s.uni[i], c)), !.mrem = FSub(@, PEval(s.uni[i], FOne)),
                     !.z = FMul(@, FMul(c, FOneMinus(c))), !.iv = FMul(@, FOneMinus(c))]
ChalZ1(s, c) == LET n == Chal1(Bound(s, c, s.round + 1), c)
                IN IF LastRound(s) THEN [n EXCEPT !.pc = "vu", !.z = FOne] ELSE n
RecvVu(s, x) == [s EXCEPT !.pc = "p2", !.vu = x]
RecvZ2(s, p) == RecvP2(s, p, s.vu)
ChalZ2(s, c) == LET n == Chal2(Bound(s, c, UBits(s) + s.round + 1), c) IN n
(* end values; x repeats the claim made before the second phase             *)
RecvEnd(s, x, y) == Fail([s EXCEPT !.pc = "fr", !.vv = y], x = s.vu, "first operand's value was changed")
RecvFr(s, p) == Fail([s EXCEPT !.pc = "cfr", !.pend = p],
                     FAdd(RoundSum(p), FMul(s.dr, s.vu)) = s.claim, "last round")
ChalFr(s, c) == [s EXCEPT !.pc = "open", !.rc = c, !.opened = IF Top(s) THEN {"R1", "R2"} ELSE {},
                   !.claim = FAdd(PEval(s.pend, c), FMul(s.dr, s.vu))]

(* Openings of the masks, in any order, and then the layer equation.        *)
ZKRelation(s) ==
  FAdd(FAdd(FMul(s.rc, WiredRelation(s, s.vu, s.vv)), FMul(s.dr, s.vu)),
       FAdd(FMul(s.iv, FAdd(FMul(FMul(s.alpha, s.preZu), s.o1), FMul(FMul(s.beta, s.preZv), s.o2))),
            FMul(s.rho, s.oM)))
Opening(s, which) ==
  LET s1 == [s EXCEPT !.opened = @ \cup {which}]
  IN IF s1.opened # {"R1", "R2", "M"} THEN s1
     ELSE Fail([s1 EXCEPT !.pc = IF LastLayer(s) THEN "openI" ELSE "combine"], s.claim = ZKRelation(s), "layer equation")
RecvOpen1(s, r, v, w, wa) ==
  Opening(Fail([s EXCEPT !.o1 = v], r = <<s.preU, s.rc>> /\ OpenOk(s.kR, s.dR, r, v, w, wa), "layer mask opening 1"), "R1")
RecvOpen2(s, r, v, w, wa) ==
  Opening(Fail([s EXCEPT !.o2 = v], r = <<s.preV, s.rc>> /\ OpenOk(s.kR, s.dR, r, v, w, wa), "layer mask opening 2"), "R2")
RecvOpenM(s, r, v, w, wa) ==
  Opening(Fail([s EXCEPT !.oM = v], r = s.ru \o s.rv \o <<s.rc>> /\ OpenOk(s.kM, s.dM, r, v, w, wa), "sumcheck mask opening"), "M")

CombineZK(s, al, be) ==
  LET c == Combine(s, al, be)
  IN [c EXCEPT !.R = s.nR, !.dR = s.ndR, !.preZu = ZOf(s.ru), !.preZv = ZOf(s.rv),
        !.preU = LastOf(s.ru), !.preV = LastOf(s.rv), !.o1 = FZero, !.o2 = FZero, !.opened = {}]

(* Input: the claim about the first operand of the copy layer is opened.    *)
RecvOpenI(s, r, z, v, w, wa) ==
  Fail(Fail([s EXCEPT !.pc = "done"],
            r = s.ru /\ z = ZOf(s.ru) /\ OpenOk2(s.kI, s.dI, s.dI2, z, r, v, w, wa), "input opening"),
       v = s.vu, "input equation")
(* what an honest opening of the input shows                                *)
TrueInput(s) == FAdd(MLE(s.vals[1][1], s.ru), FMul(ZOf(s.ru), LineEval(s.mI, LastOf(s.ru))))
=============================================================================
