------------------------------- MODULE SHA256 -------------------------------
(* The SHA-256 compression function, the witness that proves one            *)
(* compression, and the constraints that decide whether a witness is right: *)
(* what bin/sha256gen_merkle.py has to generate.  Words are sequences of    *)
(* bits, least significant first.  The sizes come from a configuration      *)
(* record c so that the constraint system can also be exhausted in small:   *)
(*   w bits per word, R rounds, n message words, distances tap7 and tap2    *)
(*   (and n, n-1) of the schedule, rotations S0 S1 (sums), s0 s1 (schedule).*)
EXTENDS Circuit

Real == [w |-> 32, R |-> 64, n |-> 16, tap7 |-> 7, tap2 |-> 2,
         S0 |-> <<2, 13, 22>>, S1 |-> <<6, 11, 25>>, s0 |-> <<7, 18, 3>>, s1 |-> <<17, 19, 10>>]
(* bits needed by sums of four words, seven words, two words                *)
WB(c) == c.w + 2
AB(c) == c.w + 3
HB(c) == c.w + 1

-----------------------------------------------------------------------------
(* Words.                                                                   *)
Low(c, x) == SubSeq(x, 1, c.w)
Rotr(c, x, k) == [i \in 1..c.w |-> x[((i - 1 + k) % c.w) + 1]]
Shr(c, x, k, zero) == [i \in 1..c.w |-> IF i + k <= c.w THEN x[i + k] ELSE zero]
Xor1(a, b) == IF a = b THEN 0 ELSE 1
Xor3(x, y, z) == [i \in DOMAIN x |-> Xor1(Xor1(x[i], y[i]), z[i])]
Maj(x, y, z) == [i \in DOMAIN x |-> IF x[i] + y[i] + z[i] >= 2 THEN 1 ELSE 0]
Ch(x, y, z) == [i \in DOMAIN x |-> IF x[i] = 1 THEN y[i] ELSE z[i]]
BigS0(c, x) == Xor3(Rotr(c, x, c.S0[1]), Rotr(c, x, c.S0[2]), Rotr(c, x, c.S0[3]))
BigS1(c, x) == Xor3(Rotr(c, x, c.S1[1]), Rotr(c, x, c.S1[2]), Rotr(c, x, c.S1[3]))
SmallS0(c, x) == Xor3(Rotr(c, x, c.s0[1]), Rotr(c, x, c.s0[2]), Shr(c, x, c.s0[3], 0))
SmallS1(c, x) == Xor3(Rotr(c, x, c.s1[1]), Rotr(c, x, c.s1[2]), Shr(c, x, c.s1[3], 0))

(* the sum of words, as len bits                                            *)
RECURSIVE AddAt(_, _, _, _, _)
AddAt(x, y, i, carry, len) ==
  IF i > len THEN <<>>
  ELSE LET s == (IF i <= Len(x) THEN x[i] ELSE 0) + (IF i <= Len(y) THEN y[i] ELSE 0) + carry
       IN <<s % 2>> \o AddAt(x, y, i + 1, s \div 2, len)
Add(x, y, len) == TLCEval(AddAt(x, y, 1, 0, len))
SumW(xs, len) == FoldLeft(LAMBDA a, x : Add(a, x, len), [i \in 1..len |-> 0], xs)

-----------------------------------------------------------------------------
(* The compression of message m (n words) with chaining value h (8 words)   *)
(* and round constants kk (R words), with everything a witness contains:    *)
(* Wb[t] schedule words and their carries (t from 0, message words plain),  *)
(* ao, eo the new a and e of every round with carries, hb the output words  *)
(* with carries.                                                            *)
RECURSIVE Schedule(_, _)
Schedule(c, ws) ==
  IF Len(ws) = c.R THEN ws
  ELSE LET t == Len(ws)
           x(d) == Low(c, ws[t - d + 1])
       IN Schedule(c, Append(ws, SumW(<<SmallS1(c, x(c.tap2)), x(c.tap7), SmallS0(c, x(c.n - 1)), x(c.n)>>, WB(c))))
RECURSIVE Rounds(_, _, _, _)
Rounds(c, kk, ws, st) ==              \* st.v = <<a, .., h>>
  LET r == Len(st.ao) IN
  IF r = c.R THEN st
  ELSE LET v == st.v
           s1 == BigS1(c, v[5])
           ch == Ch(v[5], v[6], v[7])
           k  == kk[r + 1]
           w  == Low(c, ws[r + 1])
           an == SumW(<<v[8], s1, ch, k, w, BigS0(c, v[1]), Maj(v[1], v[2], v[3])>>, AB(c))
           en == SumW(<<v[4], v[8], s1, ch, k, w>>, AB(c))
       IN Rounds(c, kk, ws, [v |-> TLCEval(<<Low(c, an), v[1], v[2], v[3], Low(c, en), v[5], v[6], v[7]>>),
                             ao |-> Append(st.ao, an), eo |-> Append(st.eo, en)])
Witness(c, kk, h, m) ==
  LET ws == Schedule(c, m)
      st == Rounds(c, kk, ws, [v |-> h, ao |-> <<>>, eo |-> <<>>])
  IN [Wb |-> ws, K |-> kk, H |-> h, ao |-> st.ao, eo |-> st.eo, hb |-> [i \in 1..8 |-> SumW(<<st.v[i], h[i]>>, HB(c))]]
Digest(c, kk, h, m) == LET x == Witness(c, kk, h, m) IN [i \in 1..8 |-> Low(c, x.hb[i])]

(* constants of the standard as <<high half, low half>>                     *)
Nib(n, len) == [i \in 1..len |-> (n \div Pow2(i - 1)) % 2]
WordOf(p) == Nib(p[2], 16) \o Nib(p[1], 16)
KTable == <<
  <<17034, 12184>>, <<28983, 17553>>, <<46528, 64463>>, <<59829, 56229>>, <<14678, 49755>>, <<23025, 4593>>,
  <<37439, 33444>>, <<43804, 24277>>, <<55303, 43672>>, <<4739, 23297>>, <<9265, 34238>>, <<21772, 32195>>,
  <<29374, 23924>>, <<32990, 45566>>, <<39900, 1703>>, <<49563, 61812>>, <<58523, 27073>>, <<61374, 18310>>,
  <<4033, 40390>>, <<9228, 41420>>, <<11753, 11375>>, <<19060, 33962>>, <<23728, 43484>>, <<30457, 35034>>,
  <<38974, 20818>>, <<43057, 50797>>, <<45059, 10184>>, <<48985, 32711>>, <<50912, 3059>>, <<54695, 37191>>,
  <<1738, 25425>>, <<5161, 10599>>, <<10167, 2693>>, <<11803, 8504>>, <<19756, 28156>>, <<21304, 3347>>,
  <<25866, 29524>>, <<30314, 2747>>, <<33218, 51502>>, <<37490, 11397>>, <<41663, 59553>>, <<43034, 26187>>,
  <<49739, 35696>>, <<51052, 20899>>, <<53650, 59417>>, <<54937, 1572>>, <<62478, 13701>>, <<4202, 41072>>,
  <<6564, 49430>>, <<7735, 27656>>, <<10056, 30540>>, <<13488, 48309>>, <<14620, 3251>>, <<20184, 43594>>,
  <<23452, 51791>>, <<26670, 28659>>, <<29839, 33518>>, <<30885, 25455>>, <<33992, 30740>>, <<36039, 520>>,
  <<37054, 65530>>, <<42064, 27883>>, <<48889, 41975>>, <<50801, 30962>>>>
HTable == <<
  <<27145, 58983>>, <<47975, 44677>>, <<15470, 62322>>, <<42319, 62778>>, <<20750, 21119>>, <<39685, 26764>>,
  <<8067, 55723>>, <<23520, 52505>>>>
StdK == [i \in 1..64 |-> WordOf(KTable[i])]
StdH == [i \in 1..8 |-> WordOf(HTable[i])]

-----------------------------------------------------------------------------
(* The same quantities as field elements in the order of the program's      *)
(* inputs: 34 constants (the first is zero), W, bits of W[1..], K, H, the   *)
(* output words, their bits, bits of a b c e f g, new a's, new e's.         *)
NConst == 34
NInputs(c) == NConst + c.R + (c.n - 1) * c.w + (c.R - c.n) * WB(c) + c.R + 16 + 8 * HB(c) + 6 * c.w + 2 * c.R * AB(c)
Cut(s, off, n) == SubSeq(s, off + 1, off + n)
Cuts(s, off, len, cnt) == [i \in 1..cnt |-> Cut(s, off + (i - 1) * len, len)]
Fields(c, inp) ==
  LET o1 == NConst
      o2 == o1 + c.R
      o3 == o2 + (c.n - 1) * c.w
      o4 == o3 + (c.R - c.n) * WB(c)
      o5 == o4 + c.R
      o6 == o5 + 8
      o7 == o6 + 8
      o8 == o7 + 8 * HB(c)
      o9 == o8 + 6 * c.w
      oA == o9 + c.R * AB(c)
  IN [zero |-> inp[1], W |-> Cut(inp, o1, c.R),
      Wb |-> TLCEval(<<<<>>>> \o Cuts(inp, o2, c.w, c.n - 1) \o Cuts(inp, o3, WB(c), c.R - c.n)),
      K |-> Cut(inp, o4, c.R), H |-> Cut(inp, o5, 8), O |-> Cut(inp, o6, 8), hb |-> TLCEval(Cuts(inp, o7, HB(c), 8)),
      iv |-> TLCEval(Cuts(inp, o8, c.w, 6)), ao |-> TLCEval(Cuts(inp, o9, AB(c), c.R)), eo |-> TLCEval(Cuts(inp, oA, AB(c), c.R))]

Val(bits) == FoldRight(LAMBDA b, acc : FAdd(b, FDbl(acc)), bits, FZero)
Bits2F(bits) == [i \in DOMAIN bits |-> IF bits[i] = 1 THEN FOne ELSE FZero]
FlatF(seqs) == FoldLeft(LAMBDA acc, s : acc \o Bits2F(s), <<>>, seqs)
WordsF(c, ws) == [i \in DOMAIN ws |-> Val(Bits2F(Low(c, ws[i])))]
(* the inputs of an honest prover                                           *)
HonestInputs(c, consts, x) ==
  consts \o WordsF(c, x.Wb) \o FlatF(SubSeq(x.Wb, 2, c.R)) \o WordsF(c, x.K) \o WordsF(c, x.H) \o WordsF(c, x.hb)
  \o FlatF(x.hb) \o FlatF(<<x.H[1], x.H[2], x.H[3], x.H[5], x.H[6], x.H[7]>>) \o FlatF(x.ao) \o FlatF(x.eo)

-----------------------------------------------------------------------------
(* The constraints: field elements that are all zero exactly when x is the  *)
(* witness of a compression.                                                *)
FXor(a, b) == FSub(FAdd(a, b), FDbl(FMul(a, b)))
FXor3(x, y, z) == [i \in DOMAIN x |-> FXor(FXor(x[i], y[i]), z[i])]
FMaj(x, y, z) == [i \in DOMAIN x |-> FXor(FXor(FMul(x[i], y[i]), FMul(y[i], z[i])), FMul(x[i], z[i]))]
FCh(x, y, z) == [i \in DOMAIN x |-> FXor(FMul(x[i], y[i]), FSub(z[i], FMul(x[i], z[i])))]
FBigS(c, x, k) == Val(FXor3(Rotr(c, x, k[1]), Rotr(c, x, k[2]), Rotr(c, x, k[3])))
FSmallS(c, x, k, zero) == Val(FXor3(Rotr(c, x, k[1]), Rotr(c, x, k[2]), Shr(c, x, k[3], zero)))

VecSet(s) == {s[i] : i \in DOMAIN s}

BitChecks(x) ==
  UNION {{FMul(FOneMinus(b), b) : b \in VecSet(v)} : v \in VecSet(x.Wb) \cup VecSet(x.hb) \cup VecSet(x.iv) \cup VecSet(x.ao) \cup VecSet(x.eo)}
WordChecks(c, x) ==
  {FSub(Val(Low(c, x.Wb[t])), x.W[t]) : t \in 2..c.R}
  \cup {FSub(Val(x.iv[i]), x.H[IF i <= 3 THEN i ELSE i + 1]) : i \in 1..6}
  \cup {FSub(Val(Low(c, x.hb[i])), x.O[i]) : i \in 1..8}
ScheduleCheck(c, x, t) ==             \* t from 1
  FSub(Val(x.Wb[t]), FSum(<<FSmallS(c, x.Wb[t - c.tap2], c.s1, x.zero), x.W[t - c.tap7],
                            FSmallS(c, x.Wb[t - c.n + 1], c.s0, x.zero), x.W[t - c.n]>>))
(* bits of a (e) before round r = 1, 2, ..: r <= 0 are the initial values   *)
ABits(c, x, r) == IF r > 1 THEN Low(c, x.ao[r - 1]) ELSE x.iv[2 - r]
EBits(c, x, r) == IF r > 1 THEN Low(c, x.eo[r - 1]) ELSE x.iv[5 - r]
AVal(c, x, r)  == IF r > 1 \/ r > -2 THEN Val(ABits(c, x, r)) ELSE x.H[4]    \* d of round 1 is a word
EVal(c, x, r)  == IF r > -2 THEN Val(EBits(c, x, r)) ELSE x.H[8]
RoundCommon(c, x, r) ==
  FSum(<<EVal(c, x, r - 3), FBigS(c, EBits(c, x, r), c.S1),
         Val(FCh(EBits(c, x, r), EBits(c, x, r - 1), EBits(c, x, r - 2))), x.K[r], x.W[r]>>)
RoundA(c, x, r) ==
  FSub(Val(x.ao[r]), FSum(<<RoundCommon(c, x, r), FBigS(c, ABits(c, x, r), c.S0),
                            Val(FMaj(ABits(c, x, r), ABits(c, x, r - 1), ABits(c, x, r - 2)))>>))
RoundE(c, x, r) == FSub(Val(x.eo[r]), FAdd(RoundCommon(c, x, r), AVal(c, x, r - 3)))
RoundChecks(c, x, r) == {RoundA(c, x, r), RoundE(c, x, r)}
FinalCheck(c, x, i) ==
  FSub(Val(x.hb[i]), FAdd(IF i <= 4 THEN AVal(c, x, c.R + 2 - i) ELSE EVal(c, x, c.R + 6 - i), x.H[i]))
Constraints(c, x) ==
  TLCEval(BitChecks(x)) \cup TLCEval(WordChecks(c, x)) \cup {TLCEval(ScheduleCheck(c, x, t)) : t \in (c.n + 1)..c.R}
  \cup UNION {TLCEval(RoundChecks(c, x, r)) : r \in 1..c.R} \cup {FinalCheck(c, x, i) : i \in 1..8}
=============================================================================
