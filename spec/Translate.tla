----------------------------- MODULE Translate -----------------------------
(* Conformance of the circuit translators: the circuit file written for a   *)
(* program and its range description has to be well-formed, to hold the     *)
(* values of the deepest program variables of every repetition in its last  *)
(* layer, and its layout file has to describe the repetition it contains.   *)
EXTENDS Program, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES t, done
Init == t \in 1..Len(Traces) /\ done = FALSE
Tr == Traces[t]

(* Tr.l0 is the input layer <<type, g, value>>, Tr.layers the others        *)
L0(tr)     == [g \in 1..Len(tr.l0) |-> IF tr.l0[g][1] = INPUT THEN tr.l0[g][3] ELSE FZero]
Width(tr, i) == IF i = 0 THEN Len(tr.l0) ELSE Len(tr.layers[i])
Body(tr)   == [i \in 1..Len(tr.layers) |-> [g \in 1..Len(tr.layers[i]) |-> <<tr.layers[i][g][1], tr.layers[i][g][3], tr.layers[i][g][4]>>]]

OkGate(q, w) ==
  LET ty == q[1] u == q[3] v == q[4]
  IN CASE ty \in {ADD, MUL, MINUS, XOR, NAAB, DUMMY} -> u \in 0..(w - 1) /\ v \in 0..(w - 1)
       [] ty \in {RELAY, NOT} -> u \in 0..(w - 1) /\ v = 0
       [] ty = SUM -> u \in 0..(w - 1) /\ v \in 0..w
       [] OTHER -> FALSE
GoodShape(tr) ==
  /\ tr.declared = Len(tr.layers) + 1
  /\ WellFormed(tr.layers)
  /\ Len(tr.l0) = Pow2(Log2(Len(tr.l0)))
  /\ \A g \in 1..Len(tr.l0) : tr.l0[g][1] \in {INPUT, DUMMY} /\ tr.l0[g][2] = g - 1
  /\ \A i \in 1..Len(tr.layers) : \A g \in 1..Len(tr.layers[i]) : OkGate(tr.layers[i][g], Width(tr, i - 1))

(* The values of the free inputs are the translator's choice: they are the  *)
(* input-layer values that are neither constants of the RDL nor padding.    *)
RemoveOne(s, x) == LET is == {i \in 1..Len(s) : s[i] = x}
                   IN IF is = {} THEN s ELSE RemoveAt(s, Min(is))
Unknown(tr) ==
  LET rest == FoldLeft(LAMBDA s, q : IF q[1] = "const" THEN RemoveOne(s, q[3]) ELSE s, L0(tr), tr.rdl)
  IN SelectSeq(rest, LAMBDA x : x # FZero)
Perms(s) == {[i \in 1..Len(s) |-> s[f[i]]] : f \in {f \in [1..Len(s) -> 1..Len(s)] : \A i, j \in 1..Len(s) : i # j => f[i] # f[j]}}

NonZero(s) == SelectSeq(s, LAMBDA x : x # FZero)
Flat(ss) == FoldLeft(LAMBDA a, b : a \o b, <<>>, ss)
OutVals(tr) == LET vals == EvalFrom(Body(tr), 1, <<L0(tr)>>) IN vals[Len(vals)]

(* values of the deepest variables: [variable][repetition]                  *)
Expected(tr, free) ==
  LET outs == RdlOuts(tr.rdl, free)
      n    == NIn(tr.prog)
      envs == TLCEval([r \in 1..tr.reps |-> ProgEnv(tr.prog, InputsOf(outs, n, r - 1))])
      dv   == Deepest(tr.prog)
  IN [i \in 1..Len(dv) |-> [r \in 1..tr.reps |-> envs[r][dv[i]]]]
(* whole-circuit translators: variable by variable, repetitions adjacent    *)
MatchLayered(tr, vals, free) == NonZero(vals) = NonZero(Flat(Expected(tr, free)))
(* data-parallel translator: one block of the last layer per repetition     *)
MatchParallel(tr, vals, free) ==
  LET e == Expected(tr, free)
      b == Len(vals) \div tr.reps
  IN \A r \in 1..tr.reps :
       NonZero(SubSeq(vals, (r - 1) * b + 1, r * b)) = NonZero([i \in 1..Len(e) |-> e[i][r]])
Right(tr) ==
  LET vals == OutVals(tr)
      un   == Unknown(tr)
  IN /\ Len(un) = Len(RdlFree(tr.rdl))
     /\ \E free \in Perms(un) : IF tr.tool = "parallel" THEN MatchParallel(tr, vals, free) ELSE MatchLayered(tr, vals, free)

(* Layout file: per layer <<is_para, block, repetitions, log block, log repetitions>> *)
SameShifted(tr, i, b, r) ==
  LET l == tr.layers[i]
      pb == Width(tr, i - 1) \div r
  IN \A k \in 0..(r - 1) : \A j \in 1..b :
       LET a == l[j] c == l[k * b + j]
       IN /\ c[1] = a[1]
          /\ a[1] # DUMMY => c[3] = a[3] + k * pb
          /\ a[1] \notin {DUMMY, RELAY, NOT} => c[4] = a[4] + k * pb
          /\ a[1] # DUMMY => a[3] < pb /\ a[4] <= pb
GoodLayout(tr) ==
  /\ Len(tr.meta) = Len(tr.layers) + 1
  /\ tr.meta[1][1] = 0 /\ tr.meta[2][1] = 0
  /\ \A i \in 2..Len(tr.meta) :
       LET m == tr.meta[i]
       IN /\ m[2] * m[3] = Width(tr, i - 1)
          /\ m[3] = tr.reps
          /\ m[2] = Pow2(m[4]) /\ m[3] = Pow2(m[5])
          /\ i >= 3 => m[1] = 1 /\ SameShifted(tr, i - 1, m[2], m[3])

Found ==
  IF Tr.status # "ok" THEN <<"trans: translator " \o Tr.status>>
  ELSE IF ~GoodShape(Tr) THEN <<"shape: circuit not well-formed">>
  ELSE (IF Right(Tr) THEN <<>> ELSE <<"value: circuit does not compute the program">>)
       \o (IF Tr.tool # "parallel" \/ GoodLayout(Tr) THEN <<>> ELSE <<"layout: layout file does not describe the circuit">>)
Next == ~done /\ done' = TRUE /\ t' = t /\ LET f == Found IN PrintT(<<"RES", Tr.id, f, f = <<>>>>)
=============================================================================
