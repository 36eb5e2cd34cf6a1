------------------------------ MODULE SHATrace ------------------------------
(* Conformance of bin/sha256gen_merkle.py.  A trace is either               *)
(* - the generated program of one compression, as layers: layers[l] is a    *)
(*   sequence of lines <<op, ref, ..>>, ref = <<layer, position>>, layer 1  *)
(*   holds the inputs; outs are refs; with points (field elements for all   *)
(*   inputs) and messages (16 words and chaining value as bits, and the     *)
(*   digest a library computed), or                                         *)
(* - the wiring of a Merkle tree: for every output r*n+k the source, a      *)
(*   constant (negative: -1-value's exponent, -100 for zero) or an input.   *)
EXTENDS SHA256, Json, IOUtils, FiniteSets
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES t, done
Init == t \in 1..Len(Traces) /\ done = FALSE
Tr == Traces[t]

-----------------------------------------------------------------------------
At(env, ref) == env[ref[1]][ref[2]]
LineVal(env, q) ==
  CASE q[1] = "add"   -> FAdd(At(env, q[2]), At(env, q[3]))
    [] q[1] = "mul"   -> FMul(At(env, q[2]), At(env, q[3]))
    [] q[1] = "xor"   -> FXor(At(env, q[2]), At(env, q[3]))
    [] q[1] = "naab"  -> FSub(At(env, q[3]), FMul(At(env, q[2]), At(env, q[3])))
    [] q[1] = "minus" -> FSub(At(env, q[2]), At(env, q[3]))
    [] q[1] = "not"   -> FOneMinus(At(env, q[2]))
    [] q[1] = "pass"  -> At(env, q[2])
    [] q[1] = "ss"    -> Val([i \in 1..(Len(q) - 1) |-> At(env, q[i + 1])])
Outs(tr, inp) ==
  LET env == FoldLeft(LAMBDA e, lay : Append(e, TLCEval([i \in 1..Len(lay) |-> LineVal(e, lay[i])])), <<inp>>, tr.layers)
  IN {At(env, tr.outs[i]) : i \in 1..Len(tr.outs)}
Signed(S) == S \cup {FNeg(v) : v \in S}
Same(A, B) == Signed(A) = Signed(B)

(* constant k > 0 is 2^(k+1)                                                *)
Consts == <<FZero>> \o FoldLeft(LAMBDA acc, k : Append(acc, FDbl(acc[k])), <<FInt(4)>>, [k \in 1..(NConst - 2) |-> k])
Honest(msg) == HonestInputs(Real, Consts, Witness(Real, StdK, msg.h, msg.m))

ProgMsgs(tr) ==
  IF tr.nin # NInputs(Real) THEN <<"shape: not the inputs of a witness">>
  ELSE (IF \A x \in 1..Len(tr.points) : Same(Outs(tr, tr.points[x]), Constraints(Real, Fields(Real, tr.points[x])))
        THEN <<>> ELSE <<"constraints: outputs are not the constraints of SHA-256">>)
       \o (IF \A x \in 1..Len(tr.msgs) : Outs(tr, Honest(tr.msgs[x])) = {FZero}
           THEN <<>> ELSE <<"honest: a correct witness does not satisfy the program">>)
(* the specification itself against a library                               *)
SpecMsgs(tr) ==
  IF \A x \in 1..Len(tr.msgs) : tr.msgs[x].digest = <<>> \/ Digest(Real, StdK, tr.msgs[x].h, tr.msgs[x].m) = tr.msgs[x].digest
  THEN <<>> ELSE <<"spec: digest differs from the library's">>

-----------------------------------------------------------------------------
(* Merkle tree over 2^m leaf blocks: blocks 0 .. 2^(m+1)-2 level by level,  *)
(* leaves first, root last; one more repetition repeats the root.           *)
NB(m) == Pow2(m + 1) - 1
(* children of inner block b                                                *)
Kid(m, b, j) == 2 * (b - Pow2(m)) + j
N == NInputs(Real)
OffW  == NConst
OffB1 == OffW + 64
OffB2 == OffB1 + 15 * 32
OffK  == OffB2 + 48 * 34
OffH  == OffK + 64
OffO  == OffH + 8
OffHB == OffO + 8
OffI  == OffHB + 8 * 33
OffA  == OffI + 6 * 32
(* which value input k (from 0) of repetition r is: <<block that owns it, its *)
(* position there>>, shared ones owned by block 0                           *)
Role(m, r, k) ==
  LET b == IF r = NB(m) THEN NB(m) - 1 ELSE r
      inner == b >= Pow2(m)
  IN CASE k < OffW  -> 0 * N + k
       [] k >= OffW /\ k < OffW + 16 /\ inner ->
            LET j == k - OffW IN Kid(m, b, j \div 8) * N + OffO + (j % 8)
       [] k >= OffB1 /\ k < OffB2 /\ inner ->
            LET j == 1 + ((k - OffB1) \div 32) i == (k - OffB1) % 32
            IN Kid(m, b, j \div 8) * N + OffHB + 33 * (j % 8) + i
       [] k >= OffK /\ k < OffO -> k
       [] k >= OffI /\ k < OffA -> k
       [] OTHER -> b * N + k
RolesOf(tr) == [x \in 1..Len(tr.src) |-> Role(tr.m, (x - 1) \div N, (x - 1) % N)]
(* same role, same source; different roles, different sources: the pairs    *)
(* sorted by either component have no repetition (sets of integers)         *)
Public(tr) == {tr.src[x] : x \in {y \in 1..Len(tr.src) :
                LET k == (y - 1) % N r == (y - 1) \div N
                IN (k >= OffK /\ k < OffO) \/ (k >= OffI /\ k < OffA) \/ (r >= NB(tr.m) - 1 /\ k >= OffO /\ k < OffHB)}}
NPub == NConst + 64 + 8 + 8 + 6 * 32
WireMsgs(tr) ==
  IF Len(tr.src) # Pow2(tr.m + 1) * N THEN <<"wire: not the inputs of the blocks of the tree">>
  ELSE IF \E x \in 1..Len(tr.src) : LET k == (x - 1) % N
                                    IN IF k = 0 THEN tr.src[x] # -100
                                       ELSE IF k < NConst THEN tr.src[x] # -1 - (k + 1)
                                       ELSE tr.src[x] < 0
       THEN <<"wire: constants are not where the program expects them">>
  ELSE LET role == TLCEval(RolesOf(tr))
           live == {x \in 1..Len(tr.src) : (x - 1) % N >= NConst}
           nr == Cardinality({role[x] : x \in live})
           ns == Cardinality({tr.src[x] : x \in live})
           np == Cardinality({<<role[x], tr.src[x]>> : x \in live})
           pub == Public(tr)
       IN (IF nr = np THEN <<>> ELSE <<"wire: one value of the tree comes from two inputs">>)
          \o (IF ns = np THEN <<>> ELSE <<"wire: two values of the tree come from one input">>)
          \o (IF pub = NConst..(NPub - 1) THEN <<>> ELSE <<"public: the public inputs are not the first ones">>)
          \o (IF ~tr.padded THEN (IF {tr.src[x] : x \in live} = NConst..(NConst + ns - 1) THEN <<>> ELSE <<"public: inputs are not numbered without gaps">>)
              ELSE LET priv == {tr.src[x] : x \in live} \ pub
                       lo == CHOOSE v \in priv : \A w \in priv : v <= w
                       c == Cardinality(priv)
                   IN IF /\ priv = lo..(lo + c - 1) /\ c <= lo /\ c > lo \div 2
                         /\ \E e \in 1..30 : lo = Pow2(e)
                         /\ tr.declared = lo + c
                      THEN <<>> ELSE <<"public: the private inputs do not start at the power of two that bounds their number">>)

Found == IF Tr.status # "ok" THEN <<"gen: generator " \o Tr.status>>
         ELSE IF Tr.kind = "prog" THEN ProgMsgs(Tr) \o SpecMsgs(Tr) ELSE WireMsgs(Tr)
Next == ~done /\ done' = TRUE /\ t' = t /\ LET f == Found IN PrintT(<<"RES", Tr.id, f, f = <<>>>>)
=============================================================================
