------------------------------- MODULE VecMC -------------------------------
(* Laws between the operations of Vec, on every memory of two buffers with the given values, and on the memories that
   operations lead to. *)
EXTENDS Vec, FiniteSets, TLC
CONSTANTS LEN, Vals, Scal, Deep \* Deep: lengths of sub-ranges and alignments as well
CONSTANT BOUND
Nms == {"Zero", "Fill", "Copy", "Ramp", "Add", "AddInplace", "AddConstant", "AddConstantInplace", "Subtract", "SubtractInplace", "SubtractConstant",
        "SubtractConstantInplace", "Multiply", "MultiplyInplace", "MultiplyConstant", "MultiplyConstantInplace", "MultiplyAdd", "MultiplyAddInplace",
        "MultiplyConstantAdd", "MultiplyConstantAddInplace", "CopyStrided", "FillStrided", "RampScaling"}
Elementwise == Nms \ {"Ramp"}
None == <<0, 0, 0>>
O(nm, n, al, d, x, y, z, k, g, f1, f2) == [nm |-> nm, n |-> n, al |-> al, d |-> d, x |-> x, y |-> y, z |-> z, k |-> k, g |-> g, f1 |-> f1, f2 |-> f2]
Ranges == {<<o, n>> \in (0..LEN - 1) \X (0..LEN): o + n <= LEN}
ValsA == {<<-1, 0>>, <<2, 1>>}
ScalA == {<<0, 0>>, <<-2, 0>>, <<1, 3>>}
ValsB == {<<-1, 0>>, <<0, 2>>, <<3, 0>>}
ScalB == {<<3, 0>>, <<0, -1>>}
Init == mem \in [1..2 -> [1..LEN -> Vals]]
Small == \A b \in 1..2: \A j \in 1..LEN: Abs(mem[b][j][1]) <= BOUND /\ Abs(mem[b][j][2]) <= BOUND
Next == Small /\ TLCGet("level") <= 3 /\ \E nm \in {"AddInplace", "Subtract", "Multiply", "Copy", "AddConstantInplace"}, r \in Ranges, k \in Scal:
          Op(O(nm, r[2], 0, <<1, r[1], 1>>, <<2, LEN - r[2], 1>>, <<1, r[1], 1>>, None, k, k, FALSE, FALSE))
\* the operations on buffer 1 at r, with operands from buffer 2 at s
L(nm, r, s, x, y, z, k, g, f1) == After(mem, O(nm, r[2], 0, <<1, r[1], 1>>, x, y, z, k, g, f1, FALSE))
Laws == \A r \in IF Deep THEN Ranges ELSE {<<0, LEN>>, <<1, LEN - 1>>}, k \in Scal:
  LET n == r[2]  D == <<1, r[1], 1>>  X == <<2, LEN - n, 1>>  Y == <<2, 0, 1>>  N == None
      A(nm, x, y, z, kk, g, f) == After(mem, O(nm, n, 0, D, x, y, z, kk, g, f, FALSE)) IN
  /\ A("AddInplace", X, N, N, k, k, FALSE) = A("Add", X, D, N, k, k, FALSE)
  /\ A("Add", X, Y, N, k, k, FALSE) = A("Add", Y, X, N, k, k, FALSE)
  /\ A("SubtractInplace", X, N, N, k, k, FALSE) = A("Subtract", X, D, N, k, k, FALSE)
  /\ A("MultiplyInplace", X, N, N, k, k, FALSE) = A("Multiply", D, X, N, k, k, FALSE)
  /\ A("Multiply", X, Y, N, k, k, FALSE) = A("Multiply", Y, X, N, k, k, FALSE)
  /\ A("MultiplyAddInplace", X, Y, N, k, k, FALSE) = A("MultiplyAdd", X, Y, D, k, k, FALSE)
  /\ A("MultiplyConstantAddInplace", X, N, N, k, k, FALSE) = A("MultiplyConstantAdd", X, D, N, k, k, FALSE)
  /\ A("AddConstantInplace", N, N, N, k, k, FALSE) = A("AddConstant", D, N, N, k, k, FALSE)
  /\ A("SubtractConstantInplace", N, N, N, k, k, FALSE) = A("SubtractConstant", D, N, N, k, k, FALSE)
  /\ A("MultiplyConstantInplace", N, N, N, k, k, FALSE) = A("MultiplyConstant", D, N, N, k, k, FALSE)
  /\ A("SubtractConstant", X, N, N, k, k, FALSE) = A("AddConstant", X, N, N, CNeg(k), k, FALSE)
  /\ A("Zero", N, N, N, k, k, FALSE) = A("MultiplyConstant", X, N, N, Zero2, k, FALSE)
  /\ A("Zero", N, N, N, k, k, FALSE) = A("Subtract", Y, Y, N, k, k, FALSE)
  /\ A("Fill", N, N, N, k, k, FALSE) = A("FillStrided", N, N, N, k, k, FALSE)
  /\ A("Copy", X, N, N, k, k, FALSE) = A("CopyStrided", X, N, N, k, k, FALSE)
  /\ A("Copy", D, N, N, k, k, FALSE) = mem
  /\ n >= 1 => A("Ramp", N, N, N, k, k, TRUE) = A("Fill", N, N, N, k, k, FALSE)
  /\ A("RampScaling", X, Y, N, k, Zero2, FALSE) = A("MultiplyConstant", X, N, N, k, k, FALSE)
  /\ A("RampScaling", X, Y, N, k, Zero2, TRUE) = A("MultiplyConstantAddInplace", X, N, N, k, k, FALSE)
  /\ A("RampScaling", X, Y, N, Zero2, <<1, 0>>, TRUE) = A("MultiplyAddInplace", X, Y, N, k, k, FALSE)
  \* a range in two parts is the range
  /\ \A nm \in Elementwise, c \in 0..n:
       LET P(m, o, q) == After(m, O(nm, q, 0, <<1, r[1] + o, 1>>, <<2, LEN - n + o, 1>>, <<2, o, 1>>, <<2, o, 1>>, k, k, TRUE, FALSE)) IN
       P(P(mem, 0, c), c, n - c) = P(mem, 0, n)
  \* nothing outside of the range
  /\ \A nm \in Nms: LET m == A(nm, X, Y, Y, k, k, TRUE) IN m[2] = mem[2] /\ \A j \in 1..LEN: (j <= r[1] \/ j > r[1] + n) => m[1][j] = mem[1][j]
Aligning == \A al \in 0..9, r \in Ranges:
  LET o == O("Copy", r[2], al, <<1, r[1], 1>>, <<2, LEN - r[2], 1>>, None, None, Zero2, Zero2, FALSE, FALSE) IN
  (Result(o) = "align") <=> (al \in {3, 5, 6, 7, 9} \/ (al > 1 /\ (r[1] % al # 0 \/ (LEN - r[2]) % al # 0)))
\* ramps reach their ends, in equal steps, and read the same backwards
Ramps == \A n \in 1..5, a \in -2..2, st \in -2..2, si \in BOOLEAN, ei \in BOOLEAN:
  LET k == <<a, 0 - a>>  g == <<a + 2 * st * Steps(n, si, ei), 0 - a>>
      v == [i \in 0..n - 1 |-> RampElem(i, n, k, g, si, ei)] IN
  /\ si /\ (n > 1 \/ ~ei) => v[0] = k
  /\ ei /\ (n > 1 \/ ~si) => v[n - 1] = g
  /\ \A i \in 0..n - 2: v[i + 1][1] - v[i][1] = 2 * st /\ v[i][2] = 0 - a
  /\ \A i \in 0..n - 1: v[i] = RampElem(n - 1 - i, n, g, k, ei, si)
Rounds == \A q \in -12..12: LET r == Round4(q) IN r % 4 = 0 /\ Abs(r - q) <= 2 /\ (Abs(r - q) = 2 => r % 8 = 0) /\ Round4(0 - q) = 0 - r
\* interpolation reproduces constants and straight lines, is exact at the nodes and symmetric
RECURSIVE Sum(_, _, _, _)
Sum(i, n, mu2, w) == IF i < 0 THEN 0 ELSE (IF w THEN 2 * i - n ELSE 1) * Lagrange(i, n, mu2) + Sum(i - 1, n, mu2, w)
Lagr == \A n \in 0..9: \A mu2 \in (0 - n)..n:
  /\ Sum(n, n, mu2, FALSE) \in 65536 - n - 1..65536
  /\ n > 0 => Abs(Sum(n, n, mu2, TRUE) - mu2 * 65536) <= (n + 1) * n
  /\ \A i \in 0..n: Abs(Lagrange(i, n, mu2) - Lagrange(n - i, n, 0 - mu2)) <= 1 /\ ((mu2 + n) % 2 = 0 => Lagrange(i, n, mu2) = IF 2 * i - n = mu2 THEN 65536 ELSE 0)
\* the product with the unit matrix, and the transpose of a product (by exchanged strides)
Products ==
  LET m == <<[j \in 1..4 |-> <<((j * j) % 5) - 1, 0>>], [j \in 1..4 |-> <<((3 * j) % 7) - 2, 0>>], [j \in 1..5 |-> <<7, 0>>], <<<<1, 0>>, <<0, 0>>, <<0, 0>>, <<1, 0>>>>>>
      P(d, x, y, s) == [b \in DOMAIN m |-> [j \in DOMAIN m[b] |-> LET q == Cell(d, s, b, j - 1) IN IF q = {} THEN m[b][j] ELSE LET rc == CHOOSE t \in q: TRUE IN <<Dot(m, x, y, rc[1], rc[2], s[3]), 0>>]] IN
  /\ P(<<3, 1, 2, 1>>, <<1, 0, 2, 1>>, <<4, 0, 2, 1>>, <<2, 2, 2>>)[3] = <<<<7, 0>>>> \o m[1]
  /\ P(<<3, 0, 2, 1>>, <<1, 0, 2, 1>>, <<2, 0, 2, 1>>, <<2, 2, 2>>) = P(<<3, 0, 1, 2>>, <<2, 0, 1, 2>>, <<1, 0, 1, 2>>, <<2, 2, 2>>)
ASSUME Aligning /\ Ramps /\ Rounds /\ Lagr /\ Products
Spec == Init /\ [][Next]_mem
=============================================================================
