------------------------------ MODULE Circuit ------------------------------
(* Layered arithmetic circuits: file contents, what a reader must obtain    *)
(* from them, gate semantics, and the gate relation the protocols prove.    *)
EXTENDS Field

(* A gate is <<type, u, v>>; gate number g of a layer is element g+1.       *)
ADD == 0  MUL == 1  DUMMY == 2  INPUT == 3  DIRECT == 4  SUM == 5
NOT == 6  MINUS == 7  XOR == 8  NAAB == 9  RELAY == 10
EXPSUM == 12  BITTEST == 13

-----------------------------------------------------------------------------
(* Reading: the file lists layers of gates <<ty, g, u, v>>.  The value u of  *)
(* an input gate is any integer (a decimal string in recorded runs).        *)
ReadGate(q) == IF q[1] = NOT THEN <<q[1], q[3], 0>> ELSE <<q[1], q[3], q[4]>>
PadLayer(l) == IF Len(l) = 1 THEN Append(l, <<DUMMY, 0, 0>>) ELSE l
ReadLayer(fl) == PadLayer([g \in 1..Len(fl) |-> ReadGate(fl[g])])

(* per-copy, blocked and multi-threaded programs: the layers of the file    *)
ReadPlain(f) == [i \in 1..Len(f) |-> ReadLayer(f[i])]
(* linear and zero-knowledge programs: a layer copying the inputs is added  *)
CopyLayer(l) == [g \in 1..Len(l) |-> <<DIRECT, g - 1, 0>>]
ReadLinear(f) == <<ReadLayer(f[1]), CopyLayer(ReadLayer(f[1]))>>
                 \o [i \in 1..(Len(f) - 1) |-> ReadLayer(f[i + 1])]

(* the zero-knowledge program also ignores the second operand of a relay    *)
ReadZK(f) == LET c == ReadLinear(f) IN [i \in 1..Len(c) |-> [g \in 1..Len(c[i]) |->
               IF c[i][g][1] = RELAY THEN <<RELAY, c[i][g][2], 0>> ELSE c[i][g]]]

RECURSIVE Log2(_)
Log2(n) == IF n <= 1 THEN 0 ELSE 1 + Log2(n \div 2)
Bits(layer) == Log2(Len(layer))

WellFormed(f) == \A i \in 1..Len(f) :
   /\ Len(f[i]) = Pow2(Log2(Len(f[i])))
   /\ \A g \in 1..Len(f[i]) : f[i][g][2] = g - 1

-----------------------------------------------------------------------------
(* Gate semantics.                                                          *)
InputVal(g) == IF g[1] = INPUT THEN FDec(g[2]) ELSE FZero
RECURSIVE SumRange(_, _, _)          \* previous layer's gates u .. v-1
SumRange(prev, u, v) == IF u >= v THEN FZero
                        ELSE FAdd(prev[u + 1], SumRange(prev, u + 1, v))
RECURSIVE ExpSum(_, _, _)            \* gates u .. v with weights 1,2,4,...
ExpSum(prev, u, v) == IF u > v THEN FZero
                      ELSE FAdd(prev[u + 1], FDbl(ExpSum(prev, u + 1, v)))

GateVal(g, prev) ==
  LET x == prev[g[2] + 1]
      y == prev[g[3] + 1]
      t == g[1]
  IN CASE t = ADD   -> FAdd(x, y)
       [] t = MUL   -> FMul(x, y)
       [] t = DUMMY -> FZero
       [] t = DIRECT -> x
       [] t = SUM   -> SumRange(prev, g[2], g[3])
       [] t = NOT   -> FSub(FOne, x)
       [] t = MINUS -> FSub(x, y)
       [] t = XOR   -> FSub(FAdd(x, y), FMul(FTwo, FMul(x, y)))
       [] t = NAAB  -> FSub(y, FMul(x, y))
       [] t = RELAY -> x
       [] t = EXPSUM -> ExpSum(prev, g[2], g[3])
       [] t = BITTEST -> FMul(x, FSub(FOne, x))

LayerVal(layer, prev) == TLCEval([g \in 1..Len(layer) |-> GateVal(layer[g], prev)])
RECURSIVE EvalFrom(_, _, _)
EvalFrom(c, k, acc) == IF k > Len(c) THEN acc
                       ELSE EvalFrom(c, k + 1, Append(acc, LayerVal(c[k], acc[Len(acc)])))
InputVals(c) == TLCEval([g \in 1..Len(c[1]) |-> InputVal(c[1][g])])
Evaluate(c) == EvalFrom(c, 2, <<InputVals(c)>>)

-----------------------------------------------------------------------------
(* The gate relation of a layer, as terms <<g, type, u, v, coefficient>>:   *)
(*   value(g) = SUM over its terms of coef * F(type, prev[u], prev[v]).     *)
(* Range gates become one term per summand; gates without a second operand  *)
(* use wire 0 there.                                                        *)
RECURSIVE RangeTerms(_, _, _, _, _)
RangeTerms(g, k, hi, w, double) ==
  IF k > hi THEN <<>>
  ELSE <<<<g, RELAY, k, 0, w>>>> \o RangeTerms(g, k + 1, hi, IF double THEN FDbl(w) ELSE w, double)
GateTerms(g, q) ==
  CASE q[1] = DUMMY  -> <<>>
    [] q[1] = SUM    -> RangeTerms(g, q[2], q[3] - 1, FOne, FALSE)
    [] q[1] = EXPSUM -> RangeTerms(g, q[2], q[3], FOne, TRUE)
    [] q[1] = NOT    -> << <<g, NOT, q[2], 0, FOne>> >>
    [] OTHER         -> << <<g, q[1], q[2], q[3], FOne>> >>
Terms(layer) == TLCEval(FoldLeft(LAMBDA acc, g : acc \o GateTerms(g, layer[g + 1]), <<>>,
                                 [g \in 1..Len(layer) |-> g - 1]))

F(t, x, y) ==
  CASE t = ADD   -> FAdd(x, y)
    [] t = MUL   -> FMul(x, y)
    [] t = RELAY \/ t = DIRECT -> x
    [] t = NOT   -> FSub(FOne, x)
    [] t = MINUS -> FSub(x, y)
    [] t = XOR   -> FSub(FAdd(x, y), FDbl(FMul(x, y)))
    [] t = NAAB  -> FSub(y, FMul(x, y))
    [] t = BITTEST -> FSub(x, FMul(x, y))
=============================================================================
