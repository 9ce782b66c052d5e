------------------------------ MODULE RampTrace ------------------------------
EXTENDS Ramp, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l
T == Trace[l]
Is(e) == l <= Len(Trace) /\ T.e = e /\ l' = l + 1
Tol == 400
\* elements as logged: <<index, output, input, gain>>
Els(s, free) == LET D == {s[i][1] : i \in 1..Len(s)} IN
  [d \in D |-> LET x == s[CHOOSE i \in 1..Len(s) : s[i][1] = d] IN [r |-> x[2], c |-> x[3], s |-> x[4], t |-> x[4], free |-> free]]
TMk == Is("mk") /\ T.r = "" /\ Setup(T.b, T.st, Els(T.els, T.free))
\* gains indexed by element; a vector of gains of the wrong size is refused and changes nothing
TSet == /\ Is("set")
        /\ IF T.bad THEN T.r = "ex" /\ UNCHANGED <<el, pos, B, Steps>>
           ELSE T.r = "" /\ Retarget([i \in DOMAIN el |-> T.g[i + 1]])
TRep == Is("rep") /\ T.r = "" /\ Replace(Els(T.els, FALSE))
TBlk == Is("blk") /\ T.r = "" /\ Block(T.in, T.out, Tol)
\* the fader itself: start, end and block index are given; acc: what was in the output before
TFade == /\ Is("fade") /\ T.per = (T.st + T.b - 1) \div T.b /\ T.smp = T.st
         /\ \A n \in 1..T.b :
               LET p == T.i * T.b + n
                   g == IF p >= T.st THEN T.g1 ELSE T.g0 + ((T.g1 - T.g0) * p) \div T.st
               IN Near(T.out[n], T.acc[n] * One + T.in[n] * g, Tol)
         /\ UNCHANGED <<el, pos, B, Steps>>
TScn == Is("scn") /\ el' = Empty /\ pos' = 0 /\ B' = 1 /\ Steps' = 0
TNext == TScn \/ TMk \/ TSet \/ TRep \/ TBlk \/ TFade
TraceSpec == RInit /\ l = 1 /\ [][TNext]_<<el, pos, B, Steps, l>>
TraceAccepted == LET d == TLCGet("stats").diameter IN d - 1 = Len(Trace) \/ (PrintT(<<"REJECTED_AT", d>>) /\ FALSE)
=============================================================================
