----------------------------- MODULE FieldTrace -----------------------------
(* Conformance of prime_field.cpp and polynomial.cpp: every recorded call    *)
(* <<operation, operands, results>> is the operation of Field / Wide.        *)
(* Results are the stored integers, so a result that is congruent but not    *)
(* canonical is a deviation.                                                 *)
EXTENDS Field, Wide, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES t, done
Init == t \in 1..Len(Traces) /\ done = FALSE
Tr == Traces[t]

Canon(x) == WRed(x) = x
RECURSIVE PMulAt(_, _, _, _)
PMulAt(p, q, n, i) ==      \* coefficient number n (0-based): sum of p[i+1] q[n-i+1]
  IF i > n \/ i + 1 > Len(p) THEN FZero
  ELSE IF n - i + 1 > Len(q) THEN PMulAt(p, q, n, i + 1)
  ELSE FAdd(FMul(p[i + 1], q[n - i + 1]), PMulAt(p, q, n, i + 1))
PMul(p, q) == [n \in 1..(Len(p) + Len(q) - 1) |-> PMulAt(p, q, n - 1, 0)]
Half(s, k) == IF k = 0 THEN SubSeq(s, 1, Len(s) \div 2) ELSE SubSeq(s, Len(s) \div 2 + 1, Len(s))
AllBut(s) == SubSeq(s, 1, Len(s) - 1)
B01(b) == IF b THEN "1" ELSE "0"

(* expected results of operation o on operands a                             *)
Want(o, a) ==
  CASE o = "add" -> <<FAdd(a[1], a[2])>>
    [] o = "sub" -> <<FSub(a[1], a[2])>>
    [] o = "mul" -> <<FMul(a[1], a[2])>>
    [] o = "eq"  -> <<B01(a[1] = a[2]), B01(a[1] # a[2])>>
    [] o = "int" -> <<a[1]>>                       \* construction from an integer
    [] o = "neg" -> <<FSub("0", a[1])>>            \* from a negative integer
    [] o = "nomod" -> <<WMul(a[1], a[2])>>
    [] o = "mod" -> <<WRed(a[1])>>
    [] o = "wadd" -> <<WAdd(a[1], a[2])>>
    [] o = "wsub" -> <<WSub(a[1], a[2])>>
    [] o = "cmp" -> <<B01(WLess(a[1], a[2])), B01(WLess(a[2], a[1])), B01(~WLess(a[1], a[2])), B01(a[1] # a[2])>>
    [] o = "bits" -> <<WBits(a[1], 512), WBits(a[1], 256), a[1]>>   \* to_string, bit_stream, to_gmp_class
    [] o = "len" -> <<ToString(WLen(a[1]))>>
    [] o = "padd" -> PAdd(Half(a, 0), Half(a, 1))
    [] o = "pmul11" -> PMul(SubSeq(a, 1, 2), SubSeq(a, 3, 4))
    [] o = "pmul21" -> PMul(SubSeq(a, 1, 3), SubSeq(a, 4, 5))
    [] o = "peval" -> <<PEval(AllBut(a), a[Len(a)])>>
    [] o = "pconst" -> <<a[1], FZero>>

Bad(q) == IF q[1] = "random" THEN ~Canon(q[3][1]) ELSE q[3] # Want(q[1], q[2])
Found == FoldLeft(LAMBDA acc, q : IF Len(acc) < 3 /\ Bad(q) THEN Append(acc, "field: " \o q[1]) ELSE acc, <<>>, Tr.ops)
Next == ~done /\ done' = TRUE /\ t' = t /\ LET f == Found IN PrintT(<<"RES", Tr.id, f, f = <<>>>>)
=============================================================================
