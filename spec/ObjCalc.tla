------------------------------ MODULE ObjCalc ------------------------------
\* From objects and listener position to signal parameters: panning gains, levels and equalisers, diffuse gains, channel routings, listener compensation.
\* An object: o.t type, o.lev level, o.d diffuseness (both in 1/1000), o.c channels, o.p position (plane wave: azimuth and elevation in quarter turns, distance), o.o labels per channel, o.q equaliser sections.
EXTENDS Panning
Cos(q) == CASE q % 4 = 0 -> 1 [] q % 4 = 2 -> 0 - 1 [] OTHER -> 0
Sin(q) == Cos(q + 3)
Cartesian(p) == <<p[3] * Cos(p[1]) * Cos(p[2]), p[3] * Sin(p[1]) * Cos(p[2]), p[3] * Sin(p[2])>>
Points == {"pt", "rev", "psd", "ext"}
Spread(o) == IF o.t \in {"psd", "ext", "chan"} THEN o.d ELSE 0     \* the diffuse part of an object with a direct part
Amount(g, m) == IF m = "amp" THEN Sum([i \in 1..Len(g) |-> Abs(g[i])]) ELSE Energy(g)
Unit(g, m) == LET e == Amount(g, m) IN IF e = 0 THEN g ELSE [i \in 1..Len(g) |-> Div(1000 * g[i], e)]
Scaled(g, s) == [i \in 1..Len(g) |-> Div(g[i] * s, 1000)]
All(n, x) == [i \in 1..n |-> x]

\* ------ panning: c.mode set of gain matrices, c.nf normalisation of each
Mode(x) == {m \in {"lf", "hf", "df"}: (x \div (CASE m = "lf" -> 1 [] m = "hf" -> 2 [] OTHER -> 4)) % 2 = 1}
Kind(v, default) == CASE v = 1 -> "amp" [] v = 2 -> "en" [] OTHER -> default
Norms(x) == [lf |-> Kind(x[2], IF "hf" \in Mode(x[1]) THEN "amp" ELSE "en"), hf |-> Kind(x[3], "en"), df |-> Kind(x[4], "en")]
Panned(o) == o.t = "chan" \/ (Len(o.c) = 1 /\ o.t \in Points \union {"pw", "diff"})
Writers(os, c) == {w \in (1..Len(os)) \X (1..64): Panned(os[w[1]]) /\ w[2] <= Len(os[w[1]].c) /\ os[w[1]].c[w[2]] = c}
Column(m, c) == [i \in 1..Len(m) |-> m[i][c + 1]]
Zero(v) == \A i \in 1..Len(v): v[i] = 0
Labelled(a, ls) == [i \in 1..a.n |-> IF \E k \in 1..Len(ls): ls[k] = a.ids[i] THEN 1000 ELSE 0]
Roots(w) == [i \in 1..Len(w) |-> ISqrt(1000 * Max2(0, w[i]))]
Fits(v, g, nf, s, t) == LET m == Scaled(Unit(g, nf), s) IN \A i \in 1..Len(v): Abs(v[i] - m[i]) <= t + Abs(m[i]) \div 200
\* what may be in the columns lf, hf, df for channel k of object o
ColumnsOk(c, a, lis, o, k, lf, hf, df) ==
  LET d == Spread(o)  nf == Norms(c.x)
      Has(m) == m \in Mode(c.x[1]) IN
  CASE o.t = "chan" -> LET b == Labelled(a, o.o[k]) IN (Has("lf") => Fits(lf, b, nf.lf, 1000 - d, 2)) /\ (Has("hf") => Fits(hf, b, nf.hf, 1000 - d, 2)) /\ (Has("df") => Fits(df, b, nf.df, d, 2))
    [] o.t = "diff" -> (Has("lf") => Zero(lf)) /\ (Has("hf") => Zero(hf)) /\ (Has("df") => Fits(df, All(a.n, 1000), nf.df, 1000, 2))
    [] OTHER -> /\ Has("df") => Fits(df, All(a.n, 1000), nf.df, d, 2)
                /\ LET pw == o.t = "pw"  ch == Choices(a, lis, IF pw THEN Cartesian(o.p) ELSE o.p, pw) IN
                   \E j \in ch.t: LET w == Routed(a, ch, j)  e == Energy(w) IN
                      e < 20 \/ ((Has("lf") => Fits(lf, w, nf.lf, 1000 - d, 6 + 3000 \div e)) /\ (Has("hf") => Fits(hf, Roots(w), nf.hf, 1000 - d, 36 + 3000 \div e)))
PanOk(c, a, lis, os, lf, hf, df) ==
  /\ \A m \in {<<"lf", lf>>, <<"hf", hf>>, <<"df", df>>}: IF m[1] \in Mode(c.x[1]) THEN Len(m[2]) = a.n /\ \A i \in 1..a.n: Len(m[2][i]) = c.n ELSE m[2] = <<>>
  /\ \A h \in 0..c.n - 1: LET W == Writers(os, h) IN
       /\ W = {} => Zero(Column(lf, h)) /\ Zero(Column(hf, h)) /\ Zero(Column(df, h))
       /\ Cardinality(W) = 1 => LET w == CHOOSE w \in W: TRUE IN ColumnsOk(c, a, lis, os[w[1]], w[2], Column(lf, h), Column(hf, h), Column(df, h))
\* (the gains of a channel used by several objects are not specified)

\* ------ levels and equalisers
Uses(os, c) == {i \in 1..Len(os): \E k \in 1..Len(os[i].c): os[i].c[k] = c}
LevelsRefused(c, os) == \E i \in 1..Len(os), h \in 1..64: h <= Len(os[i].c) /\ (os[i].c[h] >= c.n \/ Len(os[i].q) > c.x[1])
Flat == <<1000000, 0, 0, 0, 0>>
LevelsOk(c, os, g, q) == Len(g) = c.n /\ Len(q) = c.n /\ \A h \in 0..c.n - 1: LET U == Uses(os, h) IN
   /\ U = {} => g[h + 1] = 0
   /\ Cardinality(U) = 1 => LET o == os[CHOOSE i \in U: TRUE] IN g[h + 1] = o.lev /\ q[h + 1] = [s \in 1..c.x[1] |-> IF s <= Len(o.q) THEN o.q[s] ELSE Flat]
\* ------ diffuse gains
DiffuseOk(c, os, g) == Len(g) = 1 /\ Len(g[1]) = c.n /\ \A h \in 0..c.n - 1: LET U == {i \in 1..Len(os): Len(os[i].c) = 1 /\ os[i].c[1] = h} IN
   /\ U = {} => g[1][h + 1] = 0
   /\ Cardinality(U) = 1 => LET o == os[CHOOSE i \in U: TRUE] IN o.t # "ext" => g[1][h + 1] = (CASE o.t = "diff" -> 1000 [] o.t = "psd" -> o.d [] OTHER -> 0)
\* ------ routings of channel objects: pairs of object channel and loudspeaker, both from 0
Wanted(c, a, os) == {<<os[w[1]].c[w[2]], i - 1>> : w \in {w \in (1..Len(os)) \X (1..64): os[w[1]].t = "chan" /\ w[2] <= Len(os[w[1]].c)}, i \in 1..a.n}
                    \cap UNION {{<<os[i].c[k], (CHOOSE n \in 1..a.n: a.ids[n] = os[i].o[k][1]) - 1>> : k \in {k \in 1..Len(os[i].c): Len(os[i].o[k]) = 1 /\ os[i].c[k] < c.n /\ \E n \in 1..a.n: a.ids[n] = os[i].o[k][1]}} : i \in {i \in 1..Len(os): os[i].t = "chan"}}
RoutingOk(c, a, os, w) == LET R == {w[i] : i \in 1..Len(w)}  D == Wanted(c, a, os) IN
   /\ R \subseteq D /\ Cardinality(R) = Len(w)
   /\ \A x \in D: \E y \in R: y[2] = x[2]
   /\ \A x, y \in R: x[2] = y[2] => x = y
\* ------ listener compensation: nearer loudspeakers are attenuated and delayed (1/1000000 s; sound travels 344 m per second)
Distance(a, lis, i) == Norm(Sub(a.pos[i], lis))
Farthest(a, lis) == CHOOSE d \in {Distance(a, lis, i) : i \in 1..a.n}: \A i \in 1..a.n: d >= Distance(a, lis, i)
CompensationOk(a, lis, g, y) == LET m == Farthest(a, lis) IN Len(g) = a.n /\ Len(y) = a.n /\ \A i \in 1..a.n: LET d == Distance(a, lis, i) IN
   Abs(g[i] - (1000 * d) \div m) <= 2 /\ Abs(y[i] - ((m - d) * 1000) \div 344) <= 8

\* ------ state: arr arrays; cmp the component; ov the objects last delivered; at the listener position; pend: the last computation was refused
VARIABLES cmp, ov, at, pend, out
ovars == <<cmp, ov, at, pend, out>>
=============================================================================
