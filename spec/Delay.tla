-------------------------------- MODULE Delay --------------------------------
(* Delayed signals: the complete input history (newest last) and reads at (fractional) delays.
   Delays are counted in 1/F sample, gains in 1/G, output values in 1/V. *)
EXTENDS Integers, Sequences, FiniteSets, TLC
F == 4096  G == 4096  V == 256
VARIABLES hist,    \* channel (from 1) -> input samples so far (a sufficiently long suffix)
          cfg      \* [n: channels, b: block length, max: maximum delay or buffer length, ord: interpolation order, pol: policy, keep: length of the suffix]
Tail2(s, k) == IF Len(s) > k THEN SubSeq(s, Len(s) - k + 1, Len(s)) ELSE s
Fresh(n, b, max, ord, pol) == /\ hist' = [c \in 1..n |-> <<>>]
                              /\ cfg' = [n |-> n, b |-> b, max |-> max, ord |-> ord, pol |-> pol, keep |-> max + 2 * b + 2 * ord + 4]
Write(data) == hist' = TLCEval([c \in 1..cfg.n |-> TLCEval(Tail2(hist[c] \o data[c], cfg.keep))]) /\ UNCHANGED cfg
At(h, k) == IF k < Len(h) THEN h[Len(h) - k] ELSE 0       \* k samples before the newest one
Last(h, d) == [i \in 1..d |-> At(h, d - i)]               \* the last d samples, oldest first

(* ---- fractional reads *)
Near(a, b, tol) == a - b <= tol /\ b - a <= tol
TolF == 4
Lin(h, p) == LET k == p \div F  f == p % F IN ((At(h, k) * (F - f) + At(h, k + 1) * f) * V) \div F
Nearest(h, p) == LET k == p \div F  f == p % F IN
   CASE f < F \div 2 - TolF -> {At(h, k)} [] f > F \div 2 + TolF -> {At(h, k + 1)} [] OTHER -> {At(h, k), At(h, k + 1)}
\* the samples around position p lie on a line: every interpolator of order >= 1 yields the point on that line
Bends(h) == TLCEval({j \in 0..Len(h) : At(h, j) + At(h, j + 2) # 2 * At(h, j + 1)})
Straight(bends, p, ord) == LET k == p \div F  m == ord \div 2 + 2 IN \A j \in bends : j < k - m \/ j >= k + m
OnSample(p) == (p % F) <= TolF \/ (p % F) >= F - TolF
\* is v (1/V) a legal value for gain g at position p (total delay in 1/F before the newest sample)?
Legal(h, bends, p, g, v, tol) ==
  IF cfg.ord = 0 THEN \E x \in Nearest(h, p) : Near(v, (x * V * g) \div G, tol)
  ELSE IF cfg.ord = 1 \/ OnSample(p) \/ Straight(bends, p, cfg.ord) THEN Near(v, (Lin(h, p) * g) \div G, tol)
  ELSE TRUE
\* delay policies: the delay of the interpolator itself is ord/2 samples
Method == cfg.ord * (F \div 2)
Refused(d) == d > cfg.max * F \/ (cfg.pol = "add" /\ d < 0) \/ (cfg.pol = "reject" /\ d < Method)
Total(d) == CASE cfg.pol = "add" -> d + Method
              [] cfg.pol = "limit" -> IF d < Method THEN Method ELSE d
              [] OTHER -> d
\* n output samples ending at the newest input sample; delay and gain move linearly from d0, g0 to d1, g1
Ramp(a, b, i, n) == a + ((b - a) * i) \div n
OkRead(h, n, d0, d1, g0, g1, out, tol) ==
  LET bends == Bends(h)  t0 == Total(d0)  t1 == Total(d1) IN
  \A i \in 1..n : Legal(h, bends, (n - i) * F + Ramp(t0, t1, i, n), Ramp(g0, g1, i, n), out[i], tol)

(* ---- delay components: elements <<output, input>> with delay and gain moving to their targets in K blocks *)
VARIABLES el,      \* element -> [r, c, d0, d1, g0, g1]
          K, kd, kg    \* blocks of a transition; blocks of the current delay and gain transition done
NoEl == [i \in {} |-> 0]
CFresh(els, k) == el' = els /\ K' = k /\ kd' = 0 /\ kg' = 0
NowD(e) == Ramp(e.d0, e.d1, kd, K)
NowG(e) == Ramp(e.g0, e.g1, kg, K)
SetDelay(d) == el' = [i \in DOMAIN el |-> [el[i] EXCEPT !.d0 = NowD(el[i]), !.d1 = d[i]]] /\ kd' = 0 /\ UNCHANGED <<K, kg>>
SetGain(g) == el' = [i \in DOMAIN el |-> [el[i] EXCEPT !.g0 = NowG(el[i]), !.g1 = g[i]]] /\ kg' = 0 /\ UNCHANGED <<K, kd>>
Min(a, b) == IF a < b THEN a ELSE b
\* sum of several elements: judged if every element is determined
Determined(bends, p) == cfg.ord <= 1 \/ OnSample(p) \/ Straight(bends, p, cfg.ord)
RECURSIVE Sums(_, _)
Sums(vals, S) == \* set of possible sums, vals: element -> set of values
  IF S = {} THEN {0} ELSE LET x == CHOOSE x \in S : TRUE IN {a + b : a \in vals[x], b \in Sums(vals, S \ {x})}
Values(h, p, g) == IF cfg.ord = 0 THEN {(x * V * g) \div G : x \in Nearest(h, p)} ELSE {(Lin(h, p) * g) \div G}
OkBlock(hh, out, tol) == \* hh: history including this block
  LET k2d == Min(kd + 1, K)  k2g == Min(kg + 1, K)
      bends == TLCEval([c \in 1..Len(hh) |-> IF cfg.ord <= 1 THEN {} ELSE Bends(hh[c])])
      seg == TLCEval([e \in DOMAIN el |-> <<Total(NowD(el[e])), Total(Ramp(el[e].d0, el[e].d1, k2d, K)), NowG(el[e]), Ramp(el[e].g0, el[e].g1, k2g, K)>>]) IN
  \A o \in 1..Len(out) : LET S == TLCEval({e \in DOMAIN el : el[e].r = o - 1}) IN \A i \in 1..cfg.b :
    LET P == TLCEval([e \in S |-> (cfg.b - i) * F + Ramp(seg[e][1], seg[e][2], i, cfg.b)])
    IN (\A e \in S : Determined(bends[el[e].c + 1], P[e])) =>
       \E s \in Sums(TLCEval([e \in S |-> Values(hh[el[e].c + 1], P[e], Ramp(seg[e][3], seg[e][4], i, cfg.b))]), S) : Near(out[o][i], s, tol)
Block(in, out, tol) == /\ Write(in) /\ TLCEval(OkBlock(hist', out, tol))
                       /\ kd' = Min(kd + 1, K) /\ kg' = Min(kg + 1, K) /\ UNCHANGED <<el, K>>
=============================================================================
