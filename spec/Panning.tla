------------------------------ MODULE Panning ------------------------------
\* Amplitude panning between loudspeakers, and decoders built on it. Positions are whole numbers, gains are in 1/1000.
EXTENDS Integers, Sequences, FiniteSets
Abs(x) == IF x < 0 THEN 0 - x ELSE x
Sgn(x) == IF x < 0 THEN 0 - 1 ELSE IF x > 0 THEN 1 ELSE 0
Div(a, b) == Sgn(a) * Sgn(b) * (Abs(a) \div Abs(b))
Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b
RECURSIVE Newton(_, _)
Newton(n, x) == LET y == (x + n \div x) \div 2 IN IF y >= x THEN x ELSE Newton(n, y)
ISqrt(n) == IF n < 2 THEN n ELSE Newton(n, Min2(n, 46340))
RECURSIVE SumTo(_, _)
SumTo(f, n) == IF n = 0 THEN 0 ELSE f[n] + SumTo(f, n - 1)
Sum(f) == SumTo(f, Len(f))
Sub(a, b) == [i \in 1..3 |-> a[i] - b[i]]
Norm(v) == ISqrt((v[1] * v[1] + v[2] * v[2] + v[3] * v[3]) * 1000000)    \* length in 1/1000
Det3(a, b, c) == a[1] * (b[2] * c[3] - b[3] * c[2]) - a[2] * (b[1] * c[3] - b[3] * c[1]) + a[3] * (b[1] * c[2] - b[2] * c[1])
Up == <<0, 0, 1>>

\* a.d2 plane array, a.n regular loudspeakers, a.pos positions, a.tri triplets (pairs), a.rer rerouting of the virtual loudspeakers
Rel(a, lis, k) == Sub(a.pos[k], IF a.d2 THEN <<lis[1], lis[2], 0>> ELSE lis)
Source(a, lis, p, pw) == LET s == IF pw THEN p ELSE Sub(p, lis) IN IF a.d2 THEN <<s[1], s[2], 0>> ELSE s
Corner(a, lis, t, k) == IF k = 3 /\ a.d2 THEN Up ELSE Rel(a, lis, t[k])
\* For each triplet: determinant, determinants with the source in place of a corner (signs as if the first were positive), and gains: source = sum of gains times unit vectors
Solve(a, lis, s, t) == LET v == [k \in 1..3 |-> Corner(a, lis, t, k)]  D == Det3(v[1], v[2], v[3])
                           c == <<Det3(s, v[2], v[3]), Det3(v[1], s, v[3]), Det3(v[1], v[2], s)>> IN
                       [sg |-> [k \in 1..3 |-> Sgn(c[k]) * Sgn(D)], g |-> [k \in 1..3 |-> Div(Norm(v[k]) * c[k], D)]]
Least(g) == Min2(g[1], Min2(g[2], g[3]))
Negative(s) == Cardinality({k \in 1..3: s[k] < 0})
NotPositive(d2, s) == Cardinality({k \in (IF d2 THEN 1..2 ELSE 1..3): s[k] <= 0})
\* the triplets that may be chosen; where the source lies on the border of a triplet the rounding of the machine may decide either way
Tol == 3
Choices(a, lis, p, pw) ==
  LET n == Len(a.tri)  s == Source(a, lis, p, pw)  q == [j \in 1..n |-> Solve(a, lis, s, a.tri[j])]
      Cor == IF a.d2 THEN 1..2 ELSE 1..3
      In == {j \in 1..n: \A k \in Cor: q[j].sg[k] >= 0}
      Sure == {j \in 1..n: \A k \in Cor: q[j].sg[k] > 0}
      Maybe == {j \in 1..n: Negative(q[j].sg) <= 1}
      Cand == {j \in 1..n: NotPositive(a.d2, q[j].sg) <= 1}
      Best == {j \in Maybe: \A i \in Cand \union In: Least(q[j].g) >= Least(q[i].g) - Tol}
      Inside == {j \in In: ~\E i \in Sure: i < j}
  IN [t |-> IF Sure # {} THEN Inside ELSE In \union Best, q |-> q, refused |-> Cand = {} /\ In = {}, must |-> Maybe = {}]
\* gains of all loudspeakers with triplet j, then those of the virtual ones distributed over the regular ones
Raw(a, ch, j) == [i \in 1..Len(a.pos) |-> LET S == {k \in (IF a.d2 THEN 1..2 ELSE 1..3): a.tri[j][k] = i} IN IF S = {} THEN 0 ELSE ch.q[j].g[CHOOSE k \in S: TRUE]]
Routed(a, ch, j) == LET r == Raw(a, ch, j) IN [i \in 1..a.n |-> r[i] + Sum([v \in 1..Len(a.rer) |-> Div(a.rer[v][i] * r[a.n + v], 1000)])]
Energy(g) == ISqrt(Sum([i \in 1..Len(g) |-> g[i] * g[i]]))
Normalised(g) == LET e == Energy(g) IN IF e = 0 THEN g ELSE [i \in 1..Len(g) |-> Div(1000 * g[i], e)]
Close(x, y, t) == Len(x) = Len(y) /\ \A i \in 1..Len(x): Abs(x[i] - y[i]) <= t
Rendered(a, ch, j, nm, g) == LET w == Routed(a, ch, j)  m == IF nm THEN Normalised(w) ELSE w  e == Energy(w) IN
  \/ nm /\ e < 20
  \/ \A i \in 1..a.n: Abs(g[i] - m[i]) <= 6 + Abs(m[i]) \div 400 + (IF nm THEN 3000 \div e ELSE 0)
\* (the normalised gains are not specified where the regular loudspeakers get nothing)
\* observed result r (refused or not) and gains g
GainsOk(a, lis, p, pw, nm, r, g) ==
  LET ch == Choices(a, lis, p, pw) IN
  \/ r = "ex" /\ ch.refused
  \/ r = "" /\ ~ch.must /\ Len(g) = a.n /\ \E j \in ch.t: Rendered(a, ch, j, nm, g)

\* ------ decoders: a table of coefficients (1/8) for the regular array, played back through the real array
\* the rows of the decoder, and by how much they may be off (a position that only reaches virtual loudspeakers is rendered by rounding noise)
OnReal(reg, real, lis) == [i \in 1..reg.n |-> LET ch == Choices(real, lis, reg.pos[i], FALSE)  w == Routed(real, ch, CHOOSE j \in ch.t: TRUE)  e == Energy(w) IN
                            [g |-> Normalised(w), off |-> IF e < 20 THEN 2000 ELSE 6 + 3000 \div e]]
Decode(m, rows, n) == [h \in 1..Len(m) |-> [s \in 1..n |-> Div(Sum([i \in 1..Len(rows) |-> m[h][i] * rows[i].g[s]]), 8)]]
Slop(m, rows) == [h \in 1..Len(m) |-> 3 + Sum([i \in 1..Len(rows) |-> Abs(m[h][i]) * rows[i].off]) \div 8]
DecodeOk(m, reg, real, lis, g) == LET rows == OnReal(reg, real, lis)  d == Decode(m, rows, real.n)  t == Slop(m, rows) IN Len(g) = Len(m) /\ \A h \in 1..Len(m): Close(g[h], d[h], t[h])
RadAccepted(reg, order, m) == Len(m) = (order + 1) * (order + 1) /\ Len(m[1]) = reg.n
IsSquare(n) == n > 0 /\ ISqrt(n) * ISqrt(n) = n
HoaAccepted(reg, m) == IsSquare(Len(m)) /\ Len(m[1]) = reg.n

\* ------ state: arrays, panners, decoders, the HOA gain calculator
VARIABLES arr, pan, rad, hoa
vars == <<arr, pan, rad, hoa>>
Put(f, k, x) == [j \in DOMAIN f \union {k} |-> IF j = k THEN x ELSE f[j]]
\* one HOA object: columns of its channels become the decoder's rows
ObjOk(o, n, rows) == Len(o.c) = (o.o + 1) * (o.o + 1) /\ Len(o.c) <= rows /\ \A k \in 1..Len(o.c): o.c[k] < n
HoaRefuses(os, n, rows) == \E i \in 1..Len(os): os[i].h /\ ~ObjOk(os[i], n, rows)
\* the last HOA channel that claims column c (0-based): <<object, channel>>
Claims(os, c) == {<<i, k>> : i \in {i \in 1..Len(os): os[i].h}, k \in 1..64} \cap {<<i, k>> \in (1..Len(os)) \X (1..64) : k <= Len(os[i].c) /\ os[i].c[k] = c}
LastClaim(S) == CHOOSE x \in S: \A y \in S: y[1] < x[1] \/ (y[1] = x[1] /\ y[2] <= x[2])
=============================================================================
