---------------------------- MODULE TimeFreqTrace ----------------------------
EXTENDS TimeFreq, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, c, h    \* h: samples, or frames, of each channel so far
vars == <<l, c, h>>
T == Trace[l]
Is(e) == l <= Len(Trace) /\ T.e = e /\ l' = l + 1
Empty == [kind |-> "none"]
TScn == Is("scn") /\ c' = Empty /\ h' = <<>>
TMk == /\ Is("mk")
       /\ LET k == [kind |-> T.kind, n |-> T.n, dft |-> T.dft, hann |-> T.hann, wl |-> T.wl, w |-> T.w, hop |-> T.hop, nf |-> T.nf, ni |-> T.ni, per |-> T.per, known |-> T.known] IN
          IF TLCEval(Refused(k)) THEN T.r = "ex" /\ c' = Empty /\ h' = <<>> ELSE T.r = "" /\ c' = k /\ h' = [i \in 1..k.n |-> <<>>]
TX == /\ Is("x") /\ T.r = "" /\ UNCHANGED c /\ h' = TLCEval([i \in 1..c.n |-> h[i] \o T.x[i]])
      /\ LET t0 == Len(h[1]) IN
         IF c.kind = "fwd"
         THEN Len(T.y) = Frames(c) * c.n /\ TLCEval(\A f \in 0..Frames(c) - 1: \A i \in 1..c.n:
                LET S == TLCEval(Spectrum(c, h'[i], t0 \div c.hop + f))  y == T.y[f * c.n + i] IN Len(y) = Len(S) /\ \A j \in 1..Len(S): Close(y[j], S[j]))
         ELSE LET W == Window(c) IN TLCEval(\A i \in 1..c.n: \A k \in 1..c.per: Close(T.y[i][k], Through(c, W, h'[i], t0 + k - 1)))
TF == /\ Is("f") /\ T.r = "" /\ UNCHANGED c /\ h' = TLCEval([i \in 1..c.n |-> h[i] \o [f \in 1..Frames(c) |-> T.x[(f - 1) * c.n + i]]])
      /\ LET t0 == Len(h[1]) * c.hop IN TLCEval(\A i \in 1..c.n: \A k \in 1..c.per: Close(T.y[i][k], Synth(c, h'[i], t0 + k - 1)))
TNext == TScn \/ TMk \/ TX \/ TF
TraceSpec == l = 1 /\ c = Empty /\ h = <<>> /\ [][TNext]_vars
TraceAccepted == LET d == TLCGet("stats").diameter IN d - 1 = Len(Trace) \/ (PrintT(<<"REJECTED_AT", d>>) /\ FALSE)
=============================================================================
