-------------------------------- MODULE VPD --------------------------------
(* Verifiable polynomial delegation: the three commitment schemes of the    *)
(* zero-knowledge program.  A group element is represented by its discrete  *)
(* logarithm, so a pairing is a product in the field; k is the (secret)     *)
(* key [a, s]: s has one entry per variable and one for the blinding term.  *)
(*                                                                          *)
(* A polynomial is a sequence of monomials <<coefficient, exponents>>.      *)
EXTENDS Field

RECURSIVE FPow(_, _)
FPow(x, n) == IF n = 0 THEN FOne ELSE IF n = 1 THEN x ELSE FMul(x, FPow(x, n - 1))
RECURSIVE MonoFrom(_, _, _)
MonoFrom(x, ex, k) == IF k > Len(ex) THEN FOne
                      ELSE IF ex[k] = 0 THEN MonoFrom(x, ex, k + 1)
                      ELSE FMul(FPow(x[k], ex[k]), MonoFrom(x, ex, k + 1))
PolyEval(f, x) == FoldLeft(LAMBDA acc, t : FAdd(acc, FMul(t[1], MonoFrom(x, t[2], 1))), FZero, f)

-----------------------------------------------------------------------------
(* The shapes of the three schemes, from coefficient sequences.             *)
Unit(n, i, e) == [k \in 1..n |-> IF k = i THEN e ELSE 0]
(* small mask a0 + a1 x + a2 x^2 + a3 c + a4 c^2 + a5 x c                   *)
SmallMask(m) == << <<m[1], <<0, 0>> >>, <<m[2], <<1, 0>> >>, <<m[3], <<2, 0>> >>,
                   <<m[4], <<0, 1>> >>, <<m[5], <<0, 2>> >>, <<m[6], <<1, 1>> >> >>
(* sumcheck mask: a constant plus one univariate polynomial per variable,   *)
(* quadratic except for the last variable of each operand (degree 5)        *)
MaskVars(m) == (Len(m) - 7) \div 2
MaskUni(m, i) ==                              \* coefficients of variable i, constant (0) first
  LET d == MaskVars(m)
      lo == << FZero, m[2*i], m[2*i - 1] >>
  IN IF i = d \div 2 THEN lo \o << m[2*d + 4], m[2*d + 3], m[2*d + 2] >>
     ELSE IF i = d - 1 THEN lo \o << m[2*d + 7], m[2*d + 6], m[2*d + 5] >>
     ELSE lo
MaskConst(m) == m[2 * MaskVars(m) + 1]
MaskEval(m, x) == FAdd(MaskConst(m), FSum([i \in 1..MaskVars(m) |-> PEval(MaskUni(m, i), x[i])]))
(* multilinear input: values on the cube; its own mask m1 + m2 x_last       *)
LineEval(m, x) == FAdd(m[1], FMul(m[2], x))

-----------------------------------------------------------------------------
(* Commitment to a polynomial whose value at the key is v, blinded by rf.   *)
Digest(k, v, rf) == FAdd(v, FMul(k.s[Len(k.s)], rf))
CommitOk(k, d, da) == da = FMul(k.a, d)          \* checkable: the committer knows a representation
HonestCommit(k, v, rf, d, da) == d = Digest(k, v, rf) /\ CommitOk(k, d, da)

(* Opening of commitment d at r with claimed value v and proof (w, wa).     *)
OpenOk(k, d, r, v, w, wa) ==
  /\ Len(w) = Len(r) + 1 /\ Len(wa) = Len(w)
  /\ \A i \in 1..Len(w) : wa[i] = FMul(k.a, w[i])
  /\ FSub(d, v) = FAdd(FSum([i \in 1..Len(r) |-> FMul(FSub(k.s[i], r[i]), w[i])]),
                       FMul(k.s[Len(r) + 1], w[Len(r) + 1]))
(* Honest proofs: w_i is the quotient by x_i - r_i of what is left of the   *)
(* polynomial, evaluated at the key and blinded by t_i; the last entry      *)
(* balances the blinding.                                                   *)
Blind(k, q, r, t, rf) ==
  LET n == Len(r)  z == k.s[n + 1]
  IN [i \in 1..n |-> FAdd(q[i], FMul(z, t[i]))]
     \o << FSub(FAdd(rf, FSum([i \in 1..n |-> FMul(t[i], r[i])])), FSum([i \in 1..n |-> FMul(t[i], k.s[i])])) >>
SmallQuot(m, s, r) == << FAdd(FAdd(FMul(m[3], FAdd(s[1], r[1])), m[2]), FMul(m[6], s[2])),
                         FAdd(FAdd(FMul(m[6], r[1]), FMul(m[5], FAdd(s[2], r[2]))), m[4]) >>
(* (c(x) - c(y)) / (x - y) for a coefficient sequence c                     *)
RECURSIVE DivDiff(_, _, _)
DivDiff(c, x, y) == IF Len(c) = 1 THEN FZero
                    ELSE FAdd(PEval(Tail(c), x), FMul(y, DivDiff(Tail(c), x, y)))
MaskQuot(m, s, r) == [i \in 1..MaskVars(m) |-> DivDiff(MaskUni(m, i), s[i], r[i])]
(* multilinear: variables after i are set to r, those before it to the key  *)
RECURSIVE TopFold(_, _, _)
TopFold(t, r, i) == IF Len(r) = i THEN t
                    ELSE LET h == Len(t) \div 2  x == r[Len(r)]
                         IN TopFold(TLCEval([j \in 1..h |-> FAdd(t[j], FMul(x, FSub(t[j + h], t[j])))]), SubSeq(r, 1, Len(r) - 1), i)
LinQuot(v, s, r) ==
  [i \in 1..Len(r) |-> LET t == TopFold(v, r, i)  h == Len(t) \div 2
                       IN MLE([j \in 1..h |-> FSub(t[j + h], t[j])], SubSeq(s, 1, i - 1))]
(* The input scheme opens f + z g from the two commitments.                 *)
OpenOk2(k, d, d2, z, r, v, w, wa) == OpenOk(k, FAdd(d, FMul(z, d2)), r, v, w, wa)
=============================================================================
