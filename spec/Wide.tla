-------------------------------- MODULE Wide --------------------------------
(* Plain (unreduced) integers of 2^B values, the representation behind field *)
(* elements.  As in Field, conformance runs evaluate the operators marked    *)
(* (J) with java/Wide.java on hexadecimal strings (B = 512).                 *)
EXTENDS Integers, Sequences, TLC
CONSTANT B
WAdd(a, b) == (a + b) % (2 ^ B)                  (* (J) *)
WSub(a, b) == (a - b) % (2 ^ B)                  (* (J) *)
WMul(a, b) == a * b                              (* (J) exact product *)
WLess(a, b) == a < b                             (* (J) *)
WRed(a)    == a % 97                             (* (J) remainder modulo the prime *)
WBits(a, n) == [i \in 1..n |-> (a \div (2 ^ (i - 1))) % 2]  (* (J) as a string of 0/1, least significant first *)
WLen(a)    == CHOOSE k \in 0..B : a < 2 ^ k /\ (k = 0 \/ a >= 2 ^ (k - 1))   (* (J) *)
=============================================================================
