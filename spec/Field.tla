------------------------------- MODULE Field -------------------------------
(* The prime field the whole system computes in.                            *)
(*                                                                          *)
(* Two interpretations of the same operators:                               *)
(*  - exhaustive models: P is a small prime, elements are 0..P-1, and the   *)
(*    definitions below are what TLC evaluates;                             *)
(*  - conformance (trace) runs: elements of the real 254-bit field are      *)
(*    lower-case hexadecimal strings and TLC evaluates the operators marked *)
(*    (J) with java/Field.java (BigInteger arithmetic modulo the real       *)
(*    prime).  FieldCheck.tla checks that the two interpretations agree.    *)
EXTENDS Integers, Sequences, SequencesExt, TLC

CONSTANT P

FInt(n)    == n % P                               (* (J) integer -> element *)
FDec(n)    == FInt(n)                             (* (J) the same for integers written in decimal *)
FAdd(a, b) == (a + b) % P                         (* (J) *)
FSub(a, b) == (a - b) % P                         (* (J) *)
FMul(a, b) == (a * b) % P                         (* (J) *)
FInv2      == (P + 1) \div 2                      (* (J) 1/2, P odd *)
FInv6      == CHOOSE x \in 0..(P - 1) : (6 * x) % P = 1   (* (J) 1/6, P > 3 *)

FZero      == FInt(0)
FOne       == FInt(1)
FTwo       == FInt(2)
FNeg(a)    == FSub(FZero, a)
FOneMinus(a) == FSub(FOne, a)
FDbl(a)    == FAdd(a, a)

FSum(seq)  == FoldLeft(FAdd, FZero, seq)

(* Polynomials are coefficient sequences, constant term first.              *)
RECURSIVE HornerFrom(_, _, _)
HornerFrom(c, x, k) == IF k = Len(c) THEN c[k]
                       ELSE FAdd(c[k], FMul(x, HornerFrom(c, x, k + 1)))
PEval(c, x) == HornerFrom(c, x, 1)
PAdd(c, d)  == [k \in 1..Len(c) |-> FAdd(c[k], d[k])]
PSub(c, d)  == [k \in 1..Len(c) |-> FSub(c[k], d[k])]

(* Interpolation from the values at 0,1,2 (quadratic).                      *)
Interp3(e0, e1, e2) ==
  LET a == FMul(FInv2, FAdd(FSub(e2, FDbl(e1)), e0))
  IN << e0, FSub(FSub(e1, e0), a), a >>

(* Interpolation from the values at 0,1,2,3 (cubic).                        *)
Interp4(e0, e1, e2, e3) ==
  LET d1 == FSub(e1, e0)
      d2 == FMul(FInv2, FAdd(FSub(e2, FDbl(e1)), e0))
      d3 == FMul(FInv6, FSub(FAdd(FSub(e3, FMul(FInt(3), e2)), FMul(FInt(3), e1)), e0))
  IN << e0,                                              \* Newton form expanded
        FAdd(FSub(d1, d2), FDbl(d3)),
        FSub(d2, FMul(FInt(3), d3)),
        d3 >>

Pow2(n) == 2 ^ n
Bit(i, k) == (i \div Pow2(k)) % 2                \* k-th bit, least significant is 0

(* Table of eq(r, i) for i in 0..2^Len(r)-1 (stored 1-based, times w):      *)
(* variable number k of r (1-based) is bit k-1 of the index.                *)
EqGrow(tab, x) == TLCEval([i \in 1..Len(tab) |-> FMul(tab[i], FOneMinus(x))]
                          \o [i \in 1..Len(tab) |-> FMul(tab[i], x)])
RECURSIVE EqTabFrom(_, _, _)
EqTabFrom(tab, r, k) ==
  IF k > Len(r) THEN tab
  ELSE EqTabFrom(EqGrow(tab, r[k]), r, k + 1)
EqTab(w, r) == EqTabFrom(<<w>>, r, 1)

(* Fold the low variable of a table of values with the challenge x.         *)
FoldLow(t, x) == TLCEval([i \in 1..(Len(t) \div 2) |->
                    FAdd(t[2*i - 1], FMul(x, FSub(t[2*i], t[2*i - 1])))])
RECURSIVE FoldAll(_, _, _)
FoldAll(t, r, k) == IF k > Len(r) THEN t ELSE FoldAll(FoldLow(t, r[k]), r, k + 1)
(* multilinear extension of the table t at r (Len(t) = 2^Len(r))            *)
MLE(t, r) == FoldAll(t, r, 1)[1]
=============================================================================
