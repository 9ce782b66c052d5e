----------------------------- MODULE TimeFreqMC -----------------------------
\* Model of the transforms on short signals: the signal grows by one hop at a time.
EXTENDS TimeFreq
CONSTANTS L
VARIABLES c, s
Vals == {0, 1, 0 - 2}
Wins == {<<>>, <<10000>>, <<10000, 20000>>, <<10000, 0, 0 - 10000>>, <<20000, 10000, 10000, 10000>>}
Init == /\ s = <<>> /\ \E hop \in {1, 2, 4}: \E w \in Wins: \E nf \in 0..2: \E ni \in 0..2:
             c = [kind |-> "pair", n |-> 1, dft |-> 4, hann |-> (w = <<>>), wl |-> (IF w = <<>> THEN 4 ELSE Len(w)), w |-> w, hop |-> hop, nf |-> nf, ni |-> ni, per |-> 4, known |-> TRUE]
Hop(n) == IF n = 1 THEN {<<v>> : v \in Vals} ELSE IF n = 2 THEN Vals \X Vals ELSE {<<v, u, 0, w>> : v \in Vals, u \in Vals, w \in Vals}
Next == Len(s) < L /\ \E x \in Hop(c.hop): s' = s \o x /\ UNCHANGED c
Spec == Init /\ [][Next]_<<c, s>>
W == TLCEval(Window(c))
NF == Len(s) \div c.hop
Plain == [c EXCEPT !.nf = 0]
\* frames of integers, when the window has integer values (the transform of size 4 has no irrational factors)
Bins == TLCEval([g \in 1..NF |-> [j \in 1..6 |-> Spectrum(Plain, s, g - 1)[j] \div 1000]])
Exact == ~c.hann => \A g \in 1..NF: \A j \in 1..6: Spectrum(Plain, s, g - 1)[j] % 1000 = 0
\* the inverse of the transform is what both do in sequence
Inverse == (~c.hann /\ c.nf = 0) => \A t \in 0..Len(s) - 1: Abs(Synth(c, Bins, t) - Through(c, W, s, t)) <= 1
\* Parseval
Power == ~c.hann => \A g \in 1..NF: LET B == Bins[g]  F == Frame(c, W, s, g - 1) IN
  B[1] * B[1] + B[5] * B[5] + 2 * (B[3] * B[3] + B[4] * B[4]) = 4 * Sum([i \in 1..c.wl |-> (F[i] \div 10000) * (F[i] \div 10000)])
\* Hann windows overlapping by half give the signal, delayed by the overlap
Cola == (c.hann /\ c.hop = 2 /\ c.nf + c.ni = 2) => \A t \in 2..Len(s) - 1: Abs(Through(c, W, s, t) - 1000 * At(s, t - 2)) <= 1
\* a shift of the signal by a hop shifts the result; no output depends on later input
Shift == LET z == [i \in 1..c.hop |-> 0] \o s IN \A t \in 0..Len(s) - 1: Through(c, W, z, t + c.hop) = Through(c, W, s, t)
Causal == \A t \in 0..Len(s) - 1: LET k == (t \div c.hop + 1) * c.hop IN Through(c, W, SubSeq(s, 1, k), t) = Through(c, W, s, t)
Silence == (\A i \in 1..Len(s): s[i] = 0) => \A t \in 0..Len(s) - 1: Through(c, W, s, t) = 0
Accepted == ~Refused(c)
=============================================================================
