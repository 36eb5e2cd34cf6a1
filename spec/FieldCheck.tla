------------------------------ MODULE FieldCheck ------------------------------
(* The Java interpretation of Field (run with -Dfield.p=P) agrees with the   *)
(* TLA+ definitions for a small prime: for all a, b.                         *)
EXTENDS Field, TLC
Hx == <<"0","1","2","3","4","5","6","7","8","9","a","b","c","d","e","f">>
S(n) == IF n < 16 THEN Hx[n + 1] ELSE Hx[n \div 16 + 1] \o Hx[(n % 16) + 1]
Q == 97
VARIABLES a, b
Init == a \in 0..Q-1 /\ b \in 0..Q-1
Next == UNCHANGED <<a, b>>
Agree == /\ FAdd(S(a), S(b)) = S((a + b) % Q)
         /\ FSub(S(a), S(b)) = S((a - b) % Q)
         /\ FMul(S(a), S(b)) = S((a * b) % Q)
         /\ FInt(a * 131) = S((a * 131) % Q)
         /\ FMul(FTwo, FInv2) = FOne
         /\ FMul(FInt(6), FInv6) = FOne
         /\ LET c == <<S(a), S(b), S((a*b) % Q), S((a+5) % Q)>> IN
              /\ Interp4(PEval(c, FZero), PEval(c, FOne), PEval(c, FTwo), PEval(c, FInt(3))) = c
              /\ LET q == SubSeq(c, 1, 3) IN
                   Interp3(PEval(q, FZero), PEval(q, FOne), PEval(q, FTwo)) = q
=============================================================================
