----------------------------- MODULE Generated -----------------------------
(* Conformance of the circuit generator bin/gen.cpp: the circuits it writes *)
(* are well-formed, have the requested dimensions, and the matrix           *)
(* multiplication modes compute the product of the two matrices, as an      *)
(* identity over the field (checked at the file's own inputs and at the     *)
(* random points Tr.points).                                                *)
EXTENDS Circuit, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES t, done
Init == t \in 1..Len(Traces) /\ done = FALSE
Tr == Traces[t]

Width(tr, i) == Len(tr.layers[i])
Body(tr) == TLCEval([i \in 2..Len(tr.layers) |-> [g \in 1..Len(tr.layers[i]) |-> <<tr.layers[i][g][1], tr.layers[i][g][3], tr.layers[i][g][4]>>]])
OkGate(q, w) ==
  LET ty == q[1] u == q[3] v == q[4]
  IN CASE ty \in {ADD, MUL, MINUS, XOR, NAAB, DUMMY} -> u \in 0..(w - 1) /\ v \in 0..(w - 1)
       [] ty \in {RELAY, NOT} -> u \in 0..(w - 1)
       [] ty = SUM -> u \in 0..(w - 1) /\ v \in 0..w
       [] OTHER -> FALSE
GoodShape(tr) ==
  /\ tr.declared = Len(tr.layers)
  /\ WellFormed(tr.layers)
  /\ \A g \in 1..Width(tr, 1) : tr.layers[1][g][1] \in {INPUT, DUMMY} /\ tr.layers[1][g][3] >= 0
  /\ \A i \in 2..Len(tr.layers) : \A g \in 1..Width(tr, i) : OkGate(tr.layers[i][g], Width(tr, i - 1))
GoodSize(tr) ==
  CASE tr.mode \in {0, 1} -> /\ Len(tr.layers) = tr.d
                             /\ \A i \in 1..(tr.d - 1) : Width(tr, i) = Pow2(tr.w)
                             /\ Width(tr, tr.d) = Pow2(tr.w - 1)
    [] OTHER -> TRUE

-----------------------------------------------------------------------------
(* matrices are row-major sequences of n*n elements                         *)
Inner(a, b, n, i, j) == FSum([k \in 1..n |-> FMul(a[(i - 1) * n + k], b[(k - 1) * n + j])])
Product(a, b, n) == TLCEval([x \in 1..(n * n) |-> Inner(a, b, n, ((x - 1) \div n) + 1, ((x - 1) % n) + 1)])

(* mode 4: input layer = the two matrices one after the other               *)
Plain(a, b) == a \o b
(* mode 2: for each i, j, k the pair A[i][k], B[k][j]                       *)
Expanded(a, b, n) ==
  TLCEval([x \in 1..(2 * n * n * n) |->
    LET y == (x - 1) \div 2
        i == y \div (n * n)
        j == (y \div n) % n
        k == y % n
    IN IF (x - 1) % 2 = 0 THEN a[i * n + k + 1] ELSE b[k * n + j + 1]])
Lay(tr, a, b) == IF tr.mode = 4 THEN Plain(a, b) ELSE Expanded(a, b, tr.n)

(* the matrices the file's own input layer stands for                       *)
FileIn(tr) == TLCEval([g \in 1..Width(tr, 1) |-> FInt(tr.layers[1][g][3])])
FileA(tr) == LET f == FileIn(tr) n == tr.n
             IN IF tr.mode = 4 THEN SubSeq(f, 1, n * n)
                ELSE TLCEval([x \in 1..(n * n) |-> f[2 * (((x - 1) \div n) * n * n + ((x - 1) % n)) + 1]])
FileB(tr) == LET f == FileIn(tr) n == tr.n
             IN IF tr.mode = 4 THEN SubSeq(f, n * n + 1, 2 * n * n)
                ELSE TLCEval([x \in 1..(n * n) |-> f[2 * (((x - 1) % n) * n + ((x - 1) \div n)) + 2]])
RECURSIVE LastVal(_, _, _)
LastVal(c, i, prev) == IF i \notin DOMAIN c THEN prev ELSE LastVal(c, i + 1, LayerVal(c[i], prev))
OutOf(body, in) == LastVal(body, 2, in)
Computes(tr) ==
  LET n == tr.n
      a == FileA(tr)
      b == FileB(tr)
      body == Body(tr)
  IN /\ Width(tr, 1) = 2 * n * n * (IF tr.mode = 4 THEN 1 ELSE n)
     /\ FileIn(tr) = Lay(tr, a, b)
     /\ OutOf(body, FileIn(tr)) = Product(a, b, n)
     /\ \A x \in 1..Len(tr.points) :
          OutOf(body, Lay(tr, tr.points[x][1], tr.points[x][2])) = Product(tr.points[x][1], tr.points[x][2], n)

-----------------------------------------------------------------------------
(* layout lines <<block, blocks, log block, log blocks, characters>>        *)
GoodLayout(tr) ==
  /\ Len(tr.meta) = Len(tr.layers)
  /\ \A i \in 1..Len(tr.meta) :
       LET m == tr.meta[i]
           l == tr.layers[i]
           pb == IF i = 1 THEN 0 ELSE Width(tr, i - 1) \div m[2]
       IN /\ m[1] * m[2] = Width(tr, i)
          /\ m[1] = Pow2(m[3]) /\ m[2] = Pow2(m[4])
          /\ m[5] = tr.chars[i]
          /\ i > 1 => \A k \in 0..(m[2] - 1) : \A j \in 1..m[1] :
               LET a == l[j] c == l[k * m[1] + j]
               IN /\ c[1] = a[1] /\ c[3] = a[3] + k * pb /\ c[4] = a[4] + k * pb
                  /\ a[3] < pb /\ a[4] < pb

Found ==
  IF Tr.status # "ok" THEN <<"gen: generator " \o Tr.status>>
  ELSE IF ~GoodShape(Tr) THEN <<"shape: circuit not well-formed">>
  ELSE IF ~GoodSize(Tr) THEN <<"shape: not the requested depth and width">>
  ELSE (IF Tr.mode \notin {2, 4} \/ Computes(Tr) THEN <<>> ELSE <<"value: circuit does not compute the matrix product">>)
       \o (IF Tr.mode \notin {1, 2} \/ GoodLayout(Tr) THEN <<>> ELSE <<"layout: layout file does not describe the circuit">>)
Next == ~done /\ done' = TRUE /\ t' = t /\ LET f == Found IN PrintT(<<"RES", Tr.id, f, f = <<>>>>)
=============================================================================
