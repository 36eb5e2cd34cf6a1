--------------------------- MODULE TranslateModel ---------------------------
(* Every program of up to N code lines over K inputs: translating it to     *)
(* layers with relays preserves the value of every variable, for every      *)
(* input over the small field.                                              *)
EXTENDS Program
CONSTANTS N, K, Ops
VARIABLES prog
Ins == [i \in 1..K |-> <<"in", i - 1, i - 1, 0>>]
Init == prog = Ins
Vars(p) == {p[i][2] : i \in 1..Len(p)}
(* variables summed by "ss" have consecutive numbers and one common depth    *)
SsOk(p, a, b) == LET lv == ProgLevel(p) IN a < b /\ \A i \in a..b : i \in DOMAIN lv /\ lv[i] = lv[a]
Next == /\ Len(prog) < N + K
        /\ \E op \in Ops, a, b \in Vars(prog) :
             /\ op = "ss" => SsOk(prog, a, b)
             /\ op = "not" => a = b
             /\ prog' = Append(prog, <<op, Len(prog), a, b>>)
Padded(s) == LET q == PadTo([i \in 1..Len(s) |-> <<ADD, 0, 0>>]) IN [i \in 1..Len(q) |-> IF i <= Len(s) THEN s[i] ELSE FZero]
Preserves ==
  Len(prog) > K =>
  \A inp \in [1..K -> 0..(P - 1)] :
    LET env  == ProgEnv(prog, inp)
        vals == EvalFrom(Translation(prog), 1, <<Padded(inp)>>)
    IN \A l \in 1..Depth(prog) : LET here == LayerVars(prog, l)
                                 IN \A i \in 1..Len(here) : vals[l + 1][i] = env[here[i]]
Shape == Len(prog) > K => \A l \in 1..Depth(prog) : Len(LayerOf(prog, l)) = Pow2(Log2(Len(LayerOf(prog, l))))
=============================================================================
