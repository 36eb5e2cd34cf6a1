-------------------------------- MODULE Limb --------------------------------
(* The multi-word algorithms of prime_field.cpp with W-bit words instead of  *)
(* 64-bit ones (numbers of 8W bits = 512 bits, modulus of 4W-2 bits), for    *)
(* every operand: word-wise addition with carries, subtraction by            *)
(* complement, comparison by parts, conditional correction, and Barrett      *)
(* reduction with shift 8W-4, exact below 2^(8W-4).                          *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS W, Mods
VARIABLES x, y, m
vars == <<x, y, m>>

D == 2 ^ (2 * W)                  \* a double word, lo and mid
Q == 2 ^ (4 * W)                  \* the high half
N == 2 ^ (8 * W)
Lo(a) == a % D
Mid(a) == (a \div D) % D
Hi(a) == a \div Q

(* u512b + : carries found by comparing the wrapped sum with an operand      *)
Add(a, b) ==
  LET lo == (Lo(a) + Lo(b)) % D
      c  == IF lo < Lo(a) THEN 1 ELSE 0
      md == (Mid(a) + Mid(b) + c) % D
      c2 == IF c = 0 THEN (IF md < Mid(a) THEN 1 ELSE 0) ELSE (IF md <= Mid(a) THEN 1 ELSE 0)
      hi == (Hi(a) + Hi(b) + c2) % Q
  IN lo + D * md + Q * hi
Not(a) == N - 1 - a
Sub(a, b) == Add(a, Add(Not(b), 1))
Geq(a, b) == IF Hi(a) # Hi(b) THEN Hi(a) > Hi(b)
             ELSE IF Mid(a) # Mid(b) THEN Mid(a) > Mid(b) ELSE Lo(a) >= Lo(b)

Shift == 8 * W - 4
Factor(mm) == (2 ^ Shift) \div mm
Barrett(a, mm) ==
  LET t == (a * Factor(mm)) \div (2 ^ Shift)
      r == a - t * mm
  IN IF r >= mm THEN r - mm ELSE r

FieldAdd(a, b, mm) == LET s == Add(a, b) IN IF Geq(s, mm) THEN Sub(s, mm) ELSE s
FieldSub(a, b, mm) == IF Geq(a, b) THEN Sub(a, b) ELSE Sub(Add(a, mm), b)

Init == x \in 0..(N - 1) /\ y = 0 /\ m \in Mods
Next == y < N - 1 /\ y' = y + 1 /\ UNCHANGED <<x, m>>

AddOk == Add(x, y) = (x + y) % N
SubOk == Sub(x, y) = (x - y) % N
GeqOk == Geq(x, y) = (x >= y)
BarrettOk == (y = 0 /\ x < 2 ^ Shift) => Barrett(x, m) = x % m
FieldOk == (x < m /\ y < m) => FieldAdd(x, y, m) = (x + y) % m /\ FieldSub(x, y, m) = (x - y) % m
=============================================================================
