------------------------------ MODULE VPDModel ------------------------------
(* The commitment schemes over a small field, exhausted.                    *)
(*   "small", "lin", "mask": for all polynomials, keys (including keys equal *)
(*     to the point), points and blinding values the honest proof satisfies  *)
(*     the opening equation with the true value, and with no other value.    *)
(*   "bind": a committer whose digest and proof are known combinations of    *)
(*     the published powers (what the second halves of commitment and proof  *)
(*     enforce) satisfies the equation at every key only with the value of   *)
(*     the committed polynomial.                                             *)
EXTENDS VPD, FiniteSets

CONSTANTS Scheme, Full
FF == 0..(P - 1)
Bl == {<<0, 0, 0>>, <<1, 2 % P, 1>>, <<P - 1, 1, 1>>}     \* t1, t2, rf

Keys == IF Full THEN [1..3 -> FF] ELSE {<<0, 1, 2>>, <<2, 1, 1>>, <<1, 0, 0>>}

VARIABLE x
Init ==
  CASE Scheme = "small" -> x \in [m : [1..6 -> FF], s : Keys, r : [1..2 -> FF], b : Bl]
    [] Scheme = "lin" -> x \in [m : [1..4 -> FF], s : Keys, r : [1..2 -> FF], b : IF Full THEN [1..3 -> FF] ELSE Bl]
    [] Scheme = "mask" -> x \in [m : [1..13 -> {0, 1}], s : {<<0, 1, 2, 1>>, <<2, 2, 1, 2>>},
                                 r : IF Full THEN [1..3 -> FF] ELSE {<<2, 0, 2>>}, b : {<<1, 2, 1>>}]
    [] Scheme = "bind" -> x \in [f : [1..3 -> FF], w1 : [1..3 -> FF], w2 : [1..3 -> FF], r : FF, v : FF]
Next == UNCHANGED x

Key == [a |-> 2, s |-> x.s]
F == CASE Scheme = "small" -> PolyEval(SmallMask(x.m), x.s) [] Scheme = "lin" -> MLE(x.m, SubSeq(x.s, 1, 2))
       [] Scheme = "mask" -> MaskEval(x.m, x.s)
V == CASE Scheme = "small" -> PolyEval(SmallMask(x.m), x.r) [] Scheme = "lin" -> MLE(x.m, x.r)
       [] Scheme = "mask" -> MaskEval(x.m, x.r)
T == [i \in 1..Len(x.r) |-> x.b[IF i > 2 THEN 1 ELSE i]]
W == Blind(Key, CASE Scheme = "small" -> SmallQuot(x.m, x.s, x.r) [] Scheme = "lin" -> LinQuot(x.m, x.s, x.r)
                  [] Scheme = "mask" -> MaskQuot(x.m, x.s, x.r), x.r, T, x.b[3])
Honest ==
  Scheme = "bind" \/
  LET d == Digest(Key, F, x.b[3])
      wa == [i \in 1..Len(W) |-> FMul(2, W[i])]
  IN /\ HonestCommit(Key, F, x.b[3], d, FMul(2, d))
     /\ \A v \in FF : OpenOk(Key, d, x.r, v, W, wa) <=> v = V
     \* altering one entry alone is refused
     /\ \A i \in 1..Len(W) : ~OpenOk(Key, d, x.r, V, [W EXCEPT ![i] = FAdd(@, 1)], wa)
Lin(c, s1, s2) == FAdd(c[1], FAdd(FMul(c[2], s1), FMul(c[3], s2)))
Binding ==
  Scheme = "bind" =>
    ((\A s1 \in FF, s2 \in FF :
        LET k == [a |-> 1, s |-> <<s1, s2>>]
            w == <<Lin(x.w1, s1, s2), Lin(x.w2, s1, s2)>>
        IN OpenOk(k, Lin(x.f, s1, s2), <<x.r>>, x.v, w, w))
     => x.v = FAdd(x.f[1], FMul(x.f[2], x.r)))
=============================================================================
