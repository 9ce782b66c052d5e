---------------------------------- MODULE Vec ----------------------------------
(* Numeric kernels of libefl (reference and processor specific variants): a memory of buffers of numbers, complex ones as
   <<real, imaginary>>, real ones with an imaginary part of 0. An operand is <<buffer, offset, stride>>, <<0, 0, 0>> is none.
   Each operation rewrites the elements of its destination range from the values before it, and nothing else; an operation
   that is told an alignment (in elements) which one of its operands does not have, or which is no power of two, changes
   nothing and reports it. *)
EXTENDS Integers, Sequences
VARIABLES mem \* sequence of buffers
CAdd(x, y) == <<x[1] + y[1], x[2] + y[2]>>
CNeg(x) == <<0 - x[1], 0 - x[2]>>
CSub(x, y) == CAdd(x, CNeg(y))
CMul(x, y) == <<x[1] * y[1] - x[2] * y[2], x[1] * y[2] + x[2] * y[1]>>
Zero2 == <<0, 0>>
Pow2(a) == a \in {1, 2, 4, 8, 16, 32, 64, 128, 256}
Fits(p, a) == a = 0 \/ (Pow2(a) /\ p[2] % a = 0)
\* operands that an operation reads besides its destination
Args(nm) == CASE nm \in {"Zero", "Fill", "Ramp", "AddConstantInplace", "SubtractConstantInplace", "MultiplyConstantInplace", "FillStrided"} -> {}
              [] nm \in {"Copy", "AddInplace", "AddConstant", "SubtractInplace", "SubtractConstant", "MultiplyInplace", "MultiplyConstant", "MultiplyConstantAddInplace", "CopyStrided"} -> {"x"}
              [] nm \in {"Add", "Subtract", "Multiply", "MultiplyAddInplace", "MultiplyConstantAdd", "RampScaling"} -> {"x", "y"}
              [] nm = "MultiplyAdd" -> {"x", "y", "z"}
\* the new value of an element: x, y, z operands, old the value before, k and g scalars
Elem(nm, x, y, z, old, k, g, acc) ==
  CASE nm = "Zero" -> Zero2
    [] nm \in {"Fill", "FillStrided"} -> k
    [] nm \in {"Copy", "CopyStrided"} -> x
    [] nm = "Add" -> CAdd(x, y)
    [] nm = "AddInplace" -> CAdd(x, old)
    [] nm = "AddConstant" -> CAdd(x, k)
    [] nm = "AddConstantInplace" -> CAdd(old, k)
    [] nm = "Subtract" -> CSub(x, y)
    [] nm = "SubtractInplace" -> CSub(x, old)
    [] nm = "SubtractConstant" -> CSub(x, k)
    [] nm = "SubtractConstantInplace" -> CSub(old, k)
    [] nm = "Multiply" -> CMul(x, y)
    [] nm = "MultiplyInplace" -> CMul(x, old)
    [] nm = "MultiplyConstant" -> CMul(k, x)
    [] nm = "MultiplyConstantInplace" -> CMul(k, old)
    [] nm = "MultiplyAdd" -> CAdd(z, CMul(x, y))
    [] nm = "MultiplyAddInplace" -> CAdd(old, CMul(x, y))
    [] nm = "MultiplyConstantAdd" -> CAdd(y, CMul(k, x))
    [] nm = "MultiplyConstantAddInplace" -> CAdd(old, CMul(k, x))
    [] nm = "RampScaling" -> LET v == CMul(CAdd(k, CMul(g, y)), x) IN IF acc THEN CAdd(old, v) ELSE v
\* a ramp of n values from k to g; without its ends included these are one step before and after it
Steps(n, si, ei) == n + 1 - (IF si THEN 1 ELSE 0) - (IF ei THEN 1 ELSE 0)
RampElem(i, n, k, g, si, ei) == \* i from 0
  IF n = 1 THEN (IF si = ei THEN <<(k[1] + g[1]) \div 2, (k[2] + g[2]) \div 2>> ELSE IF si THEN k ELSE g)
  ELSE LET s == Steps(n, si, ei)  j == i + (IF si THEN 0 ELSE 1) IN <<k[1] + (j * (g[1] - k[1])) \div s, k[2] + (j * (g[2] - k[2])) \div s>>
\* element i of operand p, Zero2 for none
At(m, p, i) == IF p[1] = 0 THEN Zero2 ELSE m[p[1]][p[2] + i * p[3] + 1]
\* index of the operation that writes element j (from 0) of buffer b, or -1
Ix(d, n, b, j) == IF b # d[1] \/ j < d[2] \/ n = 0 THEN -1
                  ELSE IF d[3] = 0 THEN (IF j = d[2] THEN n - 1 ELSE -1)
                  ELSE IF (j - d[2]) % d[3] = 0 /\ (j - d[2]) \div d[3] < n THEN (j - d[2]) \div d[3] ELSE -1
Aligned(o) == Fits(o.d, o.al) /\ \A a \in Args(o.nm): Fits(o[a], o.al)
After(m, o) == [b \in DOMAIN m |-> [j \in DOMAIN m[b] |->
                 LET i == Ix(o.d, o.n, b, j - 1) IN
                 IF i < 0 THEN m[b][j]
                 ELSE IF o.nm = "Ramp" THEN RampElem(i, o.n, o.k, o.g, o.f1, o.f2)
                 ELSE Elem(o.nm, At(m, o.x, i), At(m, o.y, i), At(m, o.z, i), m[b][j], o.k, o.g, o.f1)]]
Op(o) == mem' = IF Aligned(o) THEN After(mem, o) ELSE mem
Result(o) == IF Aligned(o) THEN "" ELSE "align"
\* matrix product: operands <<buffer, offset, row stride, column stride>>, s = <<rows, columns, inner size>>, real numbers
RECURSIVE Dot(_, _, _, _, _, _)
Dot(m, x, y, r, c, i) == IF i = 0 THEN 0 ELSE Dot(m, x, y, r, c, i - 1) + m[x[1]][x[2] + r * x[3] + (i - 1) * x[4] + 1][1] * m[y[1]][y[2] + (i - 1) * y[3] + c * y[4] + 1][1]
Cell(d, s, b, j) == {rc \in (0..s[1] - 1) \X (0..s[2] - 1): b = d[1] /\ j = d[2] + rc[1] * d[3] + rc[2] * d[4]}
Prod(d, x, y, s) == mem' = [b \in DOMAIN mem |-> [j \in DOMAIN mem[b] |->
                      LET q == Cell(d, s, b, j - 1) IN IF q = {} THEN mem[b][j] ELSE LET rc == CHOOSE t \in q: TRUE IN <<Dot(mem, x, y, rc[1], rc[2], s[3]), 0>>]]
\* conversion between number types, in quarters: to an integer the nearest one, of two the even one
Round4(q) == LET f == q \div 4  r == q % 4 IN 4 * (IF r < 2 THEN f ELSE IF r > 2 THEN f + 1 ELSE IF f % 2 = 0 THEN f ELSE f + 1)
Converted(c) == [j \in DOMAIN c.dst |-> LET i == Ix(<<1, c.do, c.ds>>, c.n, 1, j - 1) IN
                   IF i < 0 THEN c.dst[j] ELSE LET v == c.src[c.so + i * c.ss + 1] IN IF c.fl THEN Round4(v) ELSE v]
\* Lagrange interpolation: coefficient i of order n at position mu2 / 2 (0 is the middle), times 65536, rounded down
RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)
Abs(a) == IF a < 0 THEN 0 - a ELSE a
Red(p) == LET g == Gcd(Abs(p[1]), Abs(p[2])) IN IF p[1] = 0 THEN <<0, 1>> ELSE IF p[2] < 0 THEN <<(0 - p[1]) \div g, (0 - p[2]) \div g>> ELSE <<p[1] \div g, p[2] \div g>>
RMul(p, q) == LET a == Red(<<p[1], q[2]>>)  b == Red(<<q[1], p[2]>>) IN <<a[1] * b[1], a[2] * b[2]>>
RECURSIVE LProd(_, _, _, _)
LProd(i, j, n, mu2) == IF j > n THEN <<1, 1>> ELSE IF j = i THEN LProd(i, j + 1, n, mu2) ELSE RMul(Red(<<2 * j - n - mu2, 2 * (j - i)>>), LProd(i, j + 1, n, mu2))
RECURSIVE Bits(_, _, _)
Bits(v, d, k) == IF k = 0 THEN v[1] ELSE LET w == 2 * v[2] IN Bits(IF w >= d THEN <<2 * v[1] + 1, w - d>> ELSE <<2 * v[1], w>>, d, k - 1)
Lagrange(i, n, mu2) == LET p == LProd(i, 0, n, mu2) IN Bits(<<p[1] \div p[2], p[1] % p[2]>>, p[2], 16)
=============================================================================
