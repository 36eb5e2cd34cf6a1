------------------------------ MODULE SHAModel ------------------------------
(* Why the constraints of SHA256.tla decide a compression, exhausted in     *)
(* small: words of w bits, R rounds, a field of P elements.  The prover     *)
(* chooses every bit vector of the witness freely (bits are 0 or 1 by the   *)
(* bit checks) and the first message word as any field element, since no    *)
(* check decomposes it; what it cannot do is leave a constraint non-zero.   *)
(* Sound: the output words of any witness are those of the compression of   *)
(* the message (first word modulo 2^w).  Complete: every message has one.   *)
EXTENDS SHA256
CONSTANTS Rounds_, Ks, Hs
C == [w |-> 2, R |-> Rounds_, n |-> 2, tap7 |-> 1, tap2 |-> 1,
      S0 |-> <<1, 0, 1>>, S1 |-> <<0, 1, 0>>, s0 |-> <<1, 0, 1>>, s1 |-> <<0, 1, 1>>]
VARIABLES x, ws, kk, hh, w0, st        \* witness so far (fields), words, constants, chaining value
vars == <<x, ws, kk, hh, w0, st>>

FF == 0..(P - 1)
RECURSIVE Vecs(_)
Vecs(n) == IF n = 0 THEN {<<>>} ELSE {Append(v, b) : v \in Vecs(n - 1), b \in {0, 1}}
Words == Vecs(C.w)
W2F(v) == Val(Bits2F(v))
Center(v) == IF v > P \div 2 THEN v - P ELSE v
(* the only field elements that pass a bit check are the bits               *)
ASSUME {b \in FF : FMul(FOneMinus(b), b) = FZero} = {0, 1}

Init ==
  \E k \in Ks, h \in Hs, a \in FF, b \in Words :
    /\ kk = [i \in 1..C.R |-> Nib((k + i) % Pow2(C.w), C.w)]
    /\ hh = [i \in 1..8 |-> Nib((h * i) % Pow2(C.w), C.w)]
    /\ w0 = a
    /\ x = [zero |-> FZero, W |-> <<a, W2F(b)>>, Wb |-> <<<<>>, b>>, K |-> WordsF(C, kk), H |-> WordsF(C, hh), O |-> <<>>,
            hb |-> <<>>, iv |-> [i \in 1..6 |-> hh[IF i <= 3 THEN i ELSE i + 1]], ao |-> <<>>, eo |-> <<>>]
    /\ ws = <<Nib(a % Pow2(C.w), C.w), b>>    \* replaced below by the centred residue
    /\ st = "schedule"
(* the initial vectors are the only ones the word checks allow              *)
InitialForced == \A i \in 1..6 : \A v \in Words : (W2F(v) = x.H[IF i <= 3 THEN i ELSE i + 1]) = (v = x.iv[i])

Schedule1 ==
  /\ st = "schedule" /\ Len(x.Wb) < C.R
  /\ \E v \in Vecs(WB(C)) :
       LET y == [x EXCEPT !.Wb = Append(x.Wb, v), !.W = Append(x.W, W2F(Low(C, v)))]
       IN ScheduleCheck(C, y, Len(y.Wb)) = FZero /\ x' = y
  /\ UNCHANGED <<ws, kk, hh, w0, st>>
Round1 ==
  /\ Len(x.Wb) >= C.R /\ Len(x.ao) < C.R
  /\ \E a \in Vecs(AB(C)) :
       LET y == [x EXCEPT !.ao = Append(x.ao, a)]
       IN RoundA(C, y, Len(y.ao)) = FZero /\
          \E e \in Vecs(AB(C)) :
            LET z == [y EXCEPT !.eo = Append(x.eo, e)]
            IN RoundE(C, z, Len(z.eo)) = FZero /\ x' = z
  /\ st' = "rounds" /\ UNCHANGED <<ws, kk, hh, w0>>
Out1 ==
  /\ Len(x.ao) = C.R /\ Len(x.hb) < 8
  /\ \E v \in Vecs(HB(C)) :
       LET y == [x EXCEPT !.hb = Append(x.hb, v), !.O = Append(x.O, W2F(Low(C, v)))]
       IN FinalCheck(C, y, Len(y.hb)) = FZero /\ x' = y
  /\ st' = (IF Len(x.hb) = 7 THEN "done" ELSE "out") /\ UNCHANGED <<ws, kk, hh, w0>>
Next == Schedule1 \/ Round1 \/ Out1

(* the integer the first word stands for, as a word                         *)
Message == <<Nib(((Center(w0) % Pow2(C.w)) + Pow2(C.w)) % Pow2(C.w), C.w), ws[2]>>
Sound == st = "done" => [i \in 1..8 |-> x.O[i]] = WordsF(C, Digest(C, kk, hh, Message))
(* the staged constraints are all of them                                   *)
Whole == st = "done" => Constraints(C, x) = {FZero}
(* while the first word is a word, the witness goes on as Witness says      *)
Complete ==
  w0 < Pow2(C.w) =>
    LET y == Witness(C, kk, hh, Message)
    IN /\ x.Wb = SubSeq(<<<<>>>> \o SubSeq(y.Wb, 2, C.R), 1, Len(x.Wb))
       /\ x.ao = SubSeq(y.ao, 1, Len(x.ao)) /\ x.eo = SubSeq(y.eo, 1, Len(x.eo)) /\ x.hb = SubSeq(y.hb, 1, Len(x.hb))
       /\ (st # "done" => ENABLED Next)
=============================================================================
