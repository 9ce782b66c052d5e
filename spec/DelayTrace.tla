----------------------------- MODULE DelayTrace -----------------------------
EXTENDS Delay, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l
vars == <<hist, cfg, el, K, kd, kg>>
T == Trace[l]
Is(e) == l <= Len(Trace) /\ T.e = e /\ l' = l + 1
Tol == 40
Init == hist = [c \in {} |-> <<>>] /\ cfg = [n |-> 0, b |-> 0, max |-> 0, ord |-> 0, pol |-> "add", keep |-> 0] /\ el = NoEl /\ K = 1 /\ kd = 0 /\ kg = 0
KeepEl == UNCHANGED <<el, K, kd, kg>>
\* circular buffer
TCMk == Is("cmk") /\ T.r = "" /\ Fresh(T.n, T.len, T.len, 0, "add") /\ KeepEl
TCW == /\ Is("cw") /\ KeepEl
       /\ IF T.chans # cfg.n \/ T.count > cfg.max THEN T.r = "ex" /\ UNCHANGED <<hist, cfg>> ELSE T.r = "" /\ Write(T.data)
\* delays per channel; a delay of exactly the buffer length may be refused (the documentation and the tests differ)
TCR == /\ Is("cr") /\ UNCHANGED vars
       /\ IF \E c \in 1..cfg.n : T.d[c] > cfg.max THEN T.r = "ex"
          ELSE TLCEval((T.r = "ex" /\ \E c \in 1..cfg.n : T.d[c] = cfg.max) \/ (T.r = "" /\ \A c \in 1..cfg.n : T.out[c] = Last(hist[c], T.d[c])))
\* delay line
TMMk == Is("mmk") /\ T.r = "" /\ Fresh(T.n, T.b, T.max, T.ord, T.pol) /\ T.md2 = T.ord /\ T.mds = T.ord /\ T.nb = T.b /\ T.nn = T.n /\ KeepEl
TMW == Is("mw") /\ (IF T.chans # cfg.n THEN T.r = "ex" /\ UNCHANGED <<hist, cfg>> ELSE T.r = "" /\ Write(T.data)) /\ KeepEl
TMI == /\ Is("mi") /\ UNCHANGED vars
       /\ IF T.c >= cfg.n \/ Refused(T.d0) \/ Refused(T.d1) THEN T.r = "ex" ELSE T.r = "" /\ TLCEval(OkRead(hist[T.c + 1], T.n, T.d0, T.d1, T.g0, T.g1, T.out, Tol))
\* components
Els(s) == LET D == {s[i][1] : i \in 1..Len(s)} IN
  [d \in D |-> LET x == s[CHOOSE i \in 1..Len(s) : s[i][1] = d] IN [r |-> x[2], c |-> x[3], d0 |-> x[4], d1 |-> x[4], g0 |-> x[5], g1 |-> x[5]]]
TDMk == Is("dmk") /\ T.r = "" /\ Fresh(T.n, T.b, T.max, T.ord, T.pol) /\ CFresh(Els(T.els), T.k)
TDD == Is("dd") /\ T.r = (IF T.bad THEN "ex" ELSE "") /\ (IF T.bad THEN KeepEl ELSE SetDelay([i \in DOMAIN el |-> T.v[i + 1]])) /\ UNCHANGED <<hist, cfg>>
TDG == Is("dg") /\ T.r = (IF T.bad THEN "ex" ELSE "") /\ (IF T.bad THEN KeepEl ELSE SetGain([i \in DOMAIN el |-> T.v[i + 1]])) /\ UNCHANGED <<hist, cfg>>
TDB == Is("db") /\ T.r = "" /\ Block(T.in, T.out, Tol * (IF T.sum > 1 THEN T.sum ELSE 1))
TScn == Is("scn") /\ hist' = [c \in {} |-> <<>>] /\ cfg' = [n |-> 0, b |-> 0, max |-> 0, ord |-> 0, pol |-> "add", keep |-> 0] /\ el' = NoEl /\ K' = 1 /\ kd' = 0 /\ kg' = 0
TNext == TScn \/ TCMk \/ TCW \/ TCR \/ TMMk \/ TMW \/ TMI \/ TDMk \/ TDD \/ TDG \/ TDB
TraceSpec == Init /\ l = 1 /\ [][TNext]_<<hist, cfg, el, K, kd, kg, l>>
TraceAccepted == LET d == TLCGet("stats").diameter IN d - 1 = Len(Trace) \/ (PrintT(<<"REJECTED_AT", d>>) /\ FALSE)
=============================================================================
