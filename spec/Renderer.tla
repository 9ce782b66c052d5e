------------------------------ MODULE Renderer ------------------------------
\* The complete renderer as a linear system that follows the scene: from impulses on object channels to the signals of the output channels.
\* c: nin, nout channels, track, ns equaliser sections, fd frequency-dependent panning, flt diffusion filters (1/8). a: array with output channels och, gains g, delays y (samples), subwoofer mix sw, equalisers eq.
EXTENDS ObjCalc, TLC
Rate == 5504
\* a scene message updates the objects it contains
Updated(old, new) == SelectSeq(old, LAMBDA o: \A i \in 1..Len(new): new[i].id # o.id) \o new
Outs(a) == a.n + Len(a.sw)
Accepts(c, a) == \A i \in 1..Outs(a): a.och[i] <= c.nout
\* gains of filters at frequency 0 (w = 0) and at half the sampling rate (w = 1)
Sg(w, t) == IF w = 1 /\ t % 2 = 1 THEN 0 - 1 ELSE 1
Preset(e, w) == CASE e = 0 -> <<1000, 0>>[w + 1] [] e = 1 -> 1000 [] e = 2 -> <<1000, 1413>>[w + 1] [] OTHER -> <<0, 1000>>[w + 1]
RECURSIVE Product(_, _)
Product(f, n) == IF n = 0 THEN 1000 ELSE Div(Product(f, n - 1) * f[n], 1000)
EqGain(e, w) == Product([s \in 1..Len(e) |-> Preset(e[s], w)], Len(e))
Section(q, w) == Div(1000 * (q[1] + Sg(w, 1) * q[2] + q[3]), 1000 + Sg(w, 1) * q[4] + q[5])
OutEq(a, i, w) == IF a.eq = <<>> THEN 1000 ELSE Product([s \in 1..Len(a.eq[i]) |-> Section(a.eq[i][s], w)], Len(a.eq[i]))
Taps(c, i) == IF c.flt = <<>> THEN <<>> ELSE c.flt[i]
Filter(c, i, w) == Sum([k \in 1..Len(Taps(c, i)) |-> 125 * Taps(c, i)[k] * Sg(w, k - 1)])

\* ------ panning columns of channel k of object o
Config(c) == [x |-> <<IF c.fd THEN 7 ELSE 5, 0, 0, 0>>]
Cols(c, a, lis, o, k) ==
  LET nf == Norms(Config(c).x)  d == Spread(o)  E == Scaled(Unit(All(a.n, 1000), nf.df), d) IN
  CASE o.t = "chan" -> LET b == Labelled(a, o.o[k]) IN [lf |-> Scaled(Unit(b, nf.lf), 1000 - d), hf |-> Scaled(Unit(b, nf.hf), 1000 - d), df |-> Scaled(Unit(b, nf.df), d), e |-> 1000, x |-> TRUE]
    [] o.t = "diff" -> [lf |-> All(a.n, 0), hf |-> All(a.n, 0), df |-> Unit(All(a.n, 1000), nf.df), e |-> 1000, x |-> TRUE]
    [] OTHER -> LET pw == o.t = "pw"  ch == Choices(a, lis, IF pw THEN Cartesian(o.p) ELSE o.p, pw)  w == Routed(a, ch, CHOOSE j \in ch.t: TRUE)  e == Energy(w) IN
                [lf |-> Scaled(Unit(w, nf.lf), 1000 - d), hf |-> Scaled(Unit(Roots(w), nf.hf), 1000 - d), df |-> E, e |-> e, x |-> FALSE]
\* the paths of the scene: one for each channel of each object
Paths(c, a, lis, os) == LET P == {p \in (1..Len(os)) \X (1..16): Panned(os[p[1]]) /\ p[2] <= Len(os[p[1]].c)} IN
  TLCEval({[h |-> os[p[1]].c[p[2]], lev |-> os[p[1]].lev, e |-> os[p[1]].e, col |-> Cols(c, a, lis, os[p[1]], p[2])] : p \in P})
\* positions that reach only virtual loudspeakers have no specified gains
Specified(P) == \A p \in P: p.col.e >= 100
\* relative slack of the panning gains, in 1/1000, for low and high frequencies
LowSlack(p) == IF p.col.x THEN 3 ELSE 9 + 3000 \div p.col.e
HighSlack(p) == IF p.col.x THEN 3 ELSE 40 + 3000 \div p.col.e

\* ------ listener compensation in samples and 1/1000
Comp(c, a, lis) == TLCEval(IF c.track THEN LET m == Farthest(a, lis) IN [i \in 1..a.n |-> [y |-> ((m - Distance(a, lis, i)) * (Rate \div 344) + 500) \div 1000, g |-> (1000 * Distance(a, lis, i)) \div m]]
                   ELSE [i \in 1..a.n |-> [y |-> 0, g |-> 1000]])
Slot(a, ch) == {i \in 1..Outs(a): a.och[i] = ch + 1}

\* ------ sums of an output over time (w = 0), with alternating signs (w = 1): value and slack
Amp(st, h, w) == Sum([s \in 1..Len(st) |-> IF st[s][1] = h THEN st[s][3] * Sg(w, st[s][2]) ELSE 0])
RECURSIVE SumOver(_, _)
SumOver(S, f) == IF S = {} THEN 0 ELSE LET x == CHOOSE x \in S: TRUE IN f[x] + SumOver(S \ {x}, f)
SetSum(S, F(_)) == SumOver(S, [x \in S |-> F(x)])
Excite(p, st, w) == Div(Amp(st, p.h, w) * p.lev * EqGain(p.e, w), 1000)
Mix(c, P, K, st, w) == [i \in DOMAIN K |->
  LET G(p) == LET D == IF c.fd /\ w = 1 THEN 0 - p.col.hf[i] ELSE p.col.lf[i] IN D + Div(Filter(c, i, w) * p.col.df[i], 1000)
      S(p) == IF c.fd /\ w = 1 THEN HighSlack(p) ELSE LowSlack(p)
      V(p) == Div(Excite(p, st, w) * G(p), 1000)
      T(p) == 1 + (Abs(Excite(p, st, w)) * (S(p) + Abs(G(p)) \div 150)) \div 1000
      v == SetSum(P, V)  t == 3 + SetSum(P, T) IN
  [v |-> Sg(w, K[i].y) * Div(v * K[i].g, 1000), t |-> t + Abs(v) \div 300]]
Sums(c, a, P, K, st, w) ==
  LET M == TLCEval(Mix(c, P, K, st, w))
      S == [i \in 1..Outs(a) |-> IF i <= a.n THEN M[i] ELSE LET r == a.sw[i - a.n] IN [v |-> Sum([k \in 1..a.n |-> Div(M[k].v * r[k], 1000)]), t |-> 2 + Sum([k \in 1..a.n |-> 1 + (M[k].t * Abs(r[k])) \div 1000])]] IN
  TLCEval([i \in 1..Outs(a) |-> LET q == Div(OutEq(a, i, w) * a.g[i], 1000) IN [v |-> Sg(w, a.y[i]) * Div(S[i].v * q, 1000), t |-> 6 + (S[i].t * Abs(q)) \div 1000 + Abs(S[i].v) \div 300]])
SumsOk(c, a, P, K, st, w, d) == LET E == Sums(c, a, P, K, st, w) IN
  Len(d) = c.nout /\ \A ch \in 0..c.nout - 1: LET I == Slot(a, ch) IN IF I = {} THEN d[ch + 1] = 0 ELSE LET e == E[CHOOSE i \in I: TRUE] IN Abs(d[ch + 1] - e.v) <= e.t

\* ------ single samples (only without recursive filters): contribution of loudspeaker i at time t of its mix
Sample(c, P, K, st, i, t) ==
  LET At(p, s) == IF st[s][1] # p.h THEN [v |-> 0, t |-> 0] ELSE
        LET u == t - st[s][2] - K[i].y  x == st[s][3] * p.lev
            k == u + 1  f == IF k \in 1..Len(Taps(c, i)) THEN Div(x * Div(125 * Taps(c, i)[k] * p.col.df[i], 1000), 1000) ELSE 0 IN
        [v |-> f + (IF u = 0 THEN Div(x * p.col.lf[i], 1000) ELSE 0), t |-> IF u = 0 THEN 1 + (Abs(x) * (LowSlack(p) + Abs(p.col.lf[i]) \div 150)) \div 1000 ELSE 1 + Abs(x) \div 300]
      V(p) == Sum([s \in 1..Len(st) |-> At(p, s).v])  T(p) == Sum([s \in 1..Len(st) |-> At(p, s).t])
      v == SetSum(P, V) IN
  [v |-> Div(v * K[i].g, 1000), t |-> 3 + SetSum(P, T) + Abs(v) \div 300]
Value(c, a, P, K, st, i, t) ==
  LET u == t - a.y[i]
      m == IF i <= a.n THEN Sample(c, P, K, st, i, u)
           ELSE LET r == a.sw[i - a.n]  S == [k \in 1..a.n |-> Sample(c, P, K, st, k, u)] IN [v |-> Sum([k \in 1..a.n |-> Div(S[k].v * r[k], 1000)]), t |-> 2 + Sum([k \in 1..a.n |-> 1 + (S[k].t * Abs(r[k])) \div 1000])] IN
  [v |-> Div(m.v * a.g[i], 1000), t |-> 4 + (m.t * Abs(a.g[i])) \div 1000]
\* the times at which output i may be different from zero
Times(c, a, K, st, i) == {st[s][2] + K[k].y + a.y[i] + n : s \in 1..Len(st), k \in (IF i <= a.n THEN {i} ELSE 1..a.n), n \in 0..Max2(0, (IF c.flt = <<>> THEN 0 ELSE Len(c.flt[1])) - 1)}
SamplesOk(c, a, P, K, st, im) ==
  LET Seen(ch, t) == {n \in 1..Len(im): im[n][1] = ch /\ im[n][2] = t} IN
  /\ \A n \in 1..Len(im): \E i \in Slot(a, im[n][1]): im[n][2] \in Times(c, a, K, st, i)
  /\ \A i \in 1..Outs(a): \A t \in Times(c, a, K, st, i):
       LET e == Value(c, a, P, K, st, i, t)  S == Seen(a.och[i] - 1, t)  v == IF S = {} THEN 0 ELSE im[CHOOSE n \in S: TRUE][3] IN Abs(v - e.v) <= e.t + 2
PlayOk(c, a, lis, os, st, dc, ny, full, im) ==
  LET P == Paths(c, a, lis, os)  K == Comp(c, a, lis) IN
  Specified(P) => /\ SumsOk(c, a, P, K, st, 0, dc) /\ SumsOk(c, a, P, K, st, 1, ny)
                  /\ full => SamplesOk(c, a, P, K, st, im)
=============================================================================
