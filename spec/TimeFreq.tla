------------------------------ MODULE TimeFreq ------------------------------
\* Time-frequency transform (framing, window, DFT) and its inverse (inverse DFT, overlap-add), with a history of signals and frames.
\* c: kind fwd/inv/pair, n channels, dft size, window (hann or values in 1/10000, length wl), hop, normalisations nf, ni (0: one, 1: unitary, 2: 1/N), period
EXTENDS Integers, Sequences, FiniteSets, TLC
Abs(x) == IF x < 0 THEN 0 - x ELSE x
Div(a, b) == IF a >= 0 THEN (2 * a + b) \div (2 * b) ELSE 0 - ((2 * (0 - a) + b) \div (2 * b))
RECURSIVE SumTo(_, _)
SumTo(s, n) == IF n = 0 THEN 0 ELSE s[n] + SumTo(s, n - 1)
Sum(s) == SumTo(s, Len(s))
Quarter == <<10000, 9808, 9239, 8315, 7071, 5556, 3827, 1951, 0>>
\* cosine of 2 pi k / 32, in 1/10000
Cos32(k) == LET j == k % 32 IN IF j <= 8 THEN Quarter[j + 1] ELSE IF j <= 16 THEN 0 - Quarter[17 - j] ELSE IF j <= 24 THEN 0 - Quarter[j - 15] ELSE Quarter[33 - j]
Cos(k, n) == Cos32(((k % n) * 32) \div n)
Sin(k, n) == Cos32(((k % n) * 32) \div n + 24)
Window(c) == TLCEval(IF c.hann THEN [i \in 1..c.wl |-> 5000 - Div(Cos(i - 1, c.wl), 2)] ELSE c.w)
Root(n) == CASE n = 4 -> 2000 [] n = 8 -> 2828 [] n = 16 -> 4000 [] n = 32 -> 5657 [] n = 64 -> 8000 [] OTHER -> 0
\* normalisation in 1/10000
Norm(k, n) == CASE k = 0 -> 10000 [] k = 1 -> Div(10000000, Root(n)) [] OTHER -> Div(10000, n)

Refused(c) == \/ c.hop = 0 \/ ~c.known
              \/ c.hop > 0 /\ c.per % c.hop # 0
              \/ c.kind # "inv" /\ c.wl > c.dft
              \/ c.kind # "fwd" /\ c.hop > c.dft
Frames(c) == c.per \div c.hop
\* ---- signals are functions from time (0..Len - 1) to values; before time 0 they are 0
At(s, t) == IF t < 0 \/ t >= Len(s) THEN 0 ELSE s[t + 1]
\* frame g (counted from 0) ends with the last sample of hop g; windowed values in 1/10000
Frame(c, W, s, g) == [i \in 1..c.wl |-> At(s, (g + 1) * c.hop - c.wl + i - 1) * W[i]]
\* bin k of the DFT of a frame, without normalisation, in 1/1000
Bin(c, v, k) == <<Sum([i \in 1..Len(v) |-> Div(Div(v[i], 10) * Cos(k * (i - 1), c.dft), 10000)]), 0 - Sum([i \in 1..Len(v) |-> Div(Div(v[i], 10) * Sin(k * (i - 1), c.dft), 10000)])>>
Scale(x, m) == CASE m = 10000 -> x [] Abs(x) > 100000 -> Div(Div(x, 100) * m, 100) [] OTHER -> Div(Div(x * 2, 10) * m, 2000)   \* x * m / 10000 without overflow
Spectrum(c, s, g) == LET v == TLCEval(Frame(c, Window(c), s, g)) m == Norm(c.nf, c.dft) IN
  [j \in 1..2 * (c.dft \div 2 + 1) |-> LET b == Bin(c, v, (j - 1) \div 2) IN Scale(IF j % 2 = 1 THEN b[1] ELSE b[2], m)]
\* ---- value at position p of the inverse DFT of bins (integers), without normalisation, in 1/1000
Idft(n, X, p) == LET R(k) == X[2 * k + 1]  J(k) == X[2 * k + 2] IN
  1000 * R(0) + (IF p % 2 = 0 THEN 1000 ELSE 0 - 1000) * R(n \div 2) + Sum([k \in 1..(n \div 2 - 1) |-> Div(R(k) * Cos(k * p, n) - J(k) * Sin(k * p, n), 5)])
\* output at time t: sum over the frames that cover it (fs: frames of one channel so far)
Covering(c, t) == {g \in 0..(t \div c.hop): t - g * c.hop < c.dft}
RECURSIVE AddUp(_, _)
AddUp(S, f) == IF S = {} THEN 0 ELSE LET x == CHOOSE x \in S: TRUE IN f[x] + AddUp(S \ {x}, f)
Synth(c, fs, t) == LET S == Covering(c, t) IN Scale(AddUp(S, [g \in S |-> Idft(c.dft, fs[g + 1], t - g * c.hop)]), Norm(c.ni, c.dft))
\* ---- both in sequence: the inverse undoes the DFT, which leaves the windowed frames (in 1/1000), each starting at the start of its hop
Through(c, W, s, t) == LET S == Covering(c, t)  V(g) == LET p == t - g * c.hop IN IF p >= c.wl THEN 0 ELSE At(s, (g + 1) * c.hop - c.wl + p) * W[p + 1] IN
  LET v == Div(AddUp(S, [g \in S |-> V(g)]), 10) IN
  CASE c.nf + c.ni = 2 -> v [] c.nf + c.ni = 0 -> v * c.dft [] c.nf + c.ni = 1 -> (IF Abs(v) > 100000 THEN Div(Div(v, 100) * Root(c.dft), 10) ELSE Div(v * Root(c.dft), 1000)) [] c.nf + c.ni = 3 -> Scale(v, Div(10000000, Root(c.dft))) [] OTHER -> Div(v, c.dft)
Close(a, e) == Abs(a - e) <= 6 + Abs(e) \div 300
=============================================================================
