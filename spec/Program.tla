------------------------------ MODULE Program ------------------------------
(* Straight-line constraint programs and their range description (RDL):     *)
(* what the circuit translators must preserve.                              *)
(*                                                                          *)
(* A program line is <<op, target, a, b>>:                                  *)
(*    <<"in", v, k, 0>>   V v = I k            <<"out", o, v, 0>>  O o = V v *)
(*    <<"add"|"mul"|"xor"|"naab"|"minus"|"not"|"ss", v, a, b>>              *)
(* ("ss": the sum of the variables numbered a..b, both included).           *)
(* An RDL line is <<"const", v, value>>, <<"in", v, k>>, <<"pass", v, w>>   *)
(* or <<"out", o, v>>; RDL output r*n+k is input k of repetition r.         *)
EXTENDS Circuit, FiniteSets, FiniteSetsExt

InLines(p)   == SelectSeq(p, LAMBDA q : q[1] = "in")
CodeLines(p) == SelectSeq(p, LAMBDA q : q[1] \notin {"in", "out"})
NIn(p)       == Len(InLines(p))

-----------------------------------------------------------------------------
(* Meaning of a program: the value of every variable.                       *)
RECURSIVE VarSum(_, _, _)
VarSum(env, a, b) == IF a > b THEN FZero ELSE FAdd(env[a], VarSum(env, a + 1, b))
OpVal(env, q) ==
  CASE q[1] = "add"   -> FAdd(env[q[3]], env[q[4]])
    [] q[1] = "mul"   -> FMul(env[q[3]], env[q[4]])
    [] q[1] = "xor"   -> F(XOR, env[q[3]], env[q[4]])
    [] q[1] = "naab"  -> F(NAAB, env[q[3]], env[q[4]])
    [] q[1] = "minus" -> FSub(env[q[3]], env[q[4]])
    [] q[1] = "not"   -> FOneMinus(env[q[3]])
    [] q[1] = "ss"    -> VarSum(env, q[3], q[4])
(* inp[k+1] is the value of input k                                         *)
ProgEnv(p, inp) ==
  FoldLeft(LAMBDA env, q :
             IF q[1] = "out" THEN env
             ELSE IF q[1] = "in" THEN TLCEval(env @@ (q[2] :> inp[q[3] + 1]))
             ELSE TLCEval(env @@ (q[2] :> OpVal(env, q))),
           <<>>, p)

(* Depth of every variable: inputs 0, others one more than their operands.  *)
MaxI(a, b) == IF a > b THEN a ELSE b
OpLevel(lv, q) == 1 + (IF q[1] = "ss" THEN Max({lv[i] : i \in q[3]..q[4]}) ELSE MaxI(lv[q[3]], lv[q[4]]))
ProgLevel(p) ==
  FoldLeft(LAMBDA lv, q :
             IF q[1] = "out" THEN lv
             ELSE IF q[1] = "in" THEN TLCEval(lv @@ (q[2] :> 0))
             ELSE TLCEval(lv @@ (q[2] :> OpLevel(lv, q))),
           <<>>, p)
Depth(p) == LET lv == ProgLevel(p) IN Max({lv[v] : v \in DOMAIN lv})
(* the deepest variables, by increasing number: the circuit's outputs       *)
Deepest(p) == LET lv == ProgLevel(p)
                  d  == Max({lv[v] : v \in DOMAIN lv})
              IN SetToSortSeq({v \in DOMAIN lv : lv[v] = d}, <)

-----------------------------------------------------------------------------
(* Meaning of a range description, given the values of its free inputs      *)
(* (free[i] belongs to the i-th "in" line): its outputs by output number.   *)
RdlFree(d)  == SelectSeq(d, LAMBDA q : q[1] = "in")
RdlEnv(d, free) ==
  LET base == FoldLeft(LAMBDA acc, q :
                IF q[1] = "const" THEN [acc EXCEPT !.env = @ @@ (q[2] :> q[3])]
                ELSE IF q[1] = "in" THEN [env |-> acc.env @@ (q[2] :> free[acc.n + 1]), n |-> acc.n + 1]
                ELSE acc, [env |-> <<>>, n |-> 0], d).env
  IN FoldLeft(LAMBDA env, q : IF q[1] = "pass" THEN TLCEval(env @@ (q[2] :> env[q[3]])) ELSE env, base, d)
RdlOuts(d, free) ==
  LET env  == RdlEnv(d, free)
      outs == SelectSeq(d, LAMBDA q : q[1] = "out")
      srt  == SortSeq(outs, LAMBDA a, b : a[2] < b[2])
  IN TLCEval([i \in 1..Len(srt) |-> env[srt[i][3]]])
InputsOf(outs, n, r) == [k \in 1..n |-> outs[r * n + k]]      \* r = 0, 1, ...

-----------------------------------------------------------------------------
(* The abstract translation: layer l holds, by increasing number, every     *)
(* variable of depth at most l -- computed there if its depth is l, carried *)
(* by a relay otherwise -- and is padded to a power of two with dummies.    *)
OpType == [add |-> ADD, mul |-> MUL, xor |-> XOR, naab |-> NAAB, minus |-> MINUS, not |-> NOT]
LayerVars(p, l) == LET lv == ProgLevel(p) IN SetToSortSeq({v \in DOMAIN lv : lv[v] <= l}, <)
PosIn(s, x) == (CHOOSE i \in 1..Len(s) : s[i] = x) - 1
LineOf(p, v) == p[CHOOSE i \in 1..Len(p) : p[i][1] # "out" /\ p[i][2] = v]
RECURSIVE PadTo(_)
PadTo(l) == IF Len(l) = Pow2(Log2(Len(l))) THEN l ELSE PadTo(Append(l, <<DUMMY, 0, 0>>))
LayerOf(p, l) ==
  LET lv == ProgLevel(p)
      here == LayerVars(p, l)
      below == LayerVars(p, l - 1)
      gate(v) == IF lv[v] < l THEN <<RELAY, PosIn(below, v), 0>>
                 ELSE LET q == LineOf(p, v)
                      IN IF q[1] = "ss" THEN <<SUM, PosIn(below, q[3]), PosIn(below, q[4]) + 1>>
                         ELSE IF q[1] = "not" THEN <<NOT, PosIn(below, q[3]), 0>>
                         ELSE <<OpType[q[1]], PosIn(below, q[3]), PosIn(below, q[4])>>
  IN PadTo([i \in 1..Len(here) |-> gate(here[i])])
Translation(p) == [l \in 1..Depth(p) |-> LayerOf(p, l)]
=============================================================================
