----------------------------- MODULE IirTrace -----------------------------
EXTENDS Iir, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, pend   \* pend: coefficient matrix published at the control input
T == Trace[l]
Is(e) == l <= Len(Trace) /\ T.e = e /\ l' = l + 1
NoFir == [n |-> 0, len |-> 0, up |-> 1, ir |-> <<>>, hist |-> <<>>]
Init == co = <<>> /\ zs = <<>> /\ fir = NoFir /\ pend = <<>> /\ l = 1
Ch == Len(co)
Sec == Len(zs[1])
Expand(k, n, s, c) == CASE k = "def" -> All(n, s, Flat) [] k = "one" -> All(n, s, c[1][1]) [] k = "list" -> [i \in 1..n |-> c[1]] [] k = "mat" -> c
ShapeOk(k, n, s, c) == CASE k = "def" -> TRUE [] k = "one" -> TRUE [] k = "list" -> Len(c[1]) = s [] k = "mat" -> Len(c) = n /\ \A i \in 1..n : Len(c[i]) = s
Res(bad) == T.r = IF bad THEN "ex" ELSE ""
TMk == /\ Is("mk") /\ UNCHANGED fir /\ pend' = <<>> /\ Res(~ShapeOk(T.ctor, T.n, T.s, T.c))
       /\ IF ShapeOk(T.ctor, T.n, T.s, T.c) THEN co' = Expand(T.ctor, T.n, T.s, T.c) /\ zs' = All(T.n, T.s, Rest) ELSE co' = <<>> /\ zs' = <<>>
CBad == T.ch >= Ch \/ (T.ch < Ch /\ T.k >= Sec)
TSet == Is("setc") /\ UNCHANGED <<zs, fir, pend>> /\ Res(CBad) /\ co' = IF CBad THEN co ELSE [co EXCEPT ![T.ch + 1][T.k + 1] = T.c]
LBad == T.ch >= Ch \/ Len(T.c) # Sec
TSetL == Is("setl") /\ UNCHANGED <<zs, fir, pend>> /\ Res(LBad) /\ co' = IF LBad THEN co ELSE [co EXCEPT ![T.ch + 1] = T.c]
MBad == Len(T.c) # Ch \/ \E i \in 1..Len(T.c) : Len(T.c[i]) # Sec
TSetM == Is("setm") /\ UNCHANGED <<zs, fir, pend>> /\ Res(MBad) /\ co' = IF MBad THEN co ELSE T.c
TMsg == Is("msg") /\ UNCHANGED <<co, zs, fir>> /\ pend' = <<T.c>>
TBlk == /\ Is("blk") /\ UNCHANGED fir /\ T.r = "" /\ pend' = <<>>
        /\ LET cc == IF pend = <<>> THEN co ELSE pend[1]
               R == TLCEval([i \in 1..Ch |-> Filter(cc[i], zs[i], T.x[i])])
           IN co' = cc /\ (\A i \in 1..Ch : T.y[i] = R[i][1]) /\ zs' = [i \in 1..Ch |-> R[i][2]]
\* the library function: coefficients given per call
TFMk == Is("fmk") /\ co' = <<>> /\ zs' = All(1, T.s, Rest) /\ UNCHANGED <<fir, pend>>
TFBlk == /\ Is("fblk") /\ UNCHANGED <<co, fir, pend>> /\ T.r = ""
         /\ LET R == TLCEval(Filter(T.c, zs[1], T.x)) IN T.y = R[1] /\ zs' = <<R[2]>>
\* FIR
TRMk == Is("rmk") /\ UNCHANGED <<co, zs, pend>> /\ T.r = (T.up * T.len > 2048) /\ fir' = [n |-> T.n, len |-> T.len, up |-> IF T.r THEN 1 ELSE T.up, ir |-> T.ir, hist |-> <<>>]
RBad == Len(T.ir) # fir.n \/ \E i \in 1..Len(T.ir) : Len(T.ir[i]) # fir.len
TRLd == Is("rld") /\ UNCHANGED <<co, zs, pend>> /\ Res(RBad) /\ fir' = IF RBad THEN fir ELSE [fir EXCEPT !.ir = T.ir]
TRBlk == /\ Is("rblk") /\ UNCHANGED <<co, zs, pend>>
         /\ LET h == TLCEval(Extend(fir.hist, T.x))
            IN TLCEval(\A o \in 1..fir.n : \A t \in 1..Len(T.x) : T.y[o][t] = FirOut(fir, h, Len(T.x), o, t)) /\ fir' = [fir EXCEPT !.hist = h]
\* text forms: rows of <<b0, b1, b2, a1, a2, a0>>, a0 = 0: not given; results in units of 1/4
Norm(v) == LET a == IF v[6] = 0 THEN 1 ELSE v[6] IN [k \in 1..5 |-> (4 * v[k]) \div a]
Row(r) == [k \in 1..Len(r) |-> Norm(r[k])]
Ragged == \E i \in 1..Len(T.rows) : Len(T.rows[i]) # Len(T.rows[1])
TText == /\ Is("text") /\ UNCHANGED <<co, zs, fir, pend>>
         /\ CASE T.k = "jm" -> IF Ragged THEN T.r = "ex" ELSE T.r = "" /\ T.out = [i \in 1..Len(T.rows) |-> Row(T.rows[i])]
              [] T.k \in {"jl", "xl", "rt"} -> T.r = "" /\ T.out = <<Row(T.rows[1])>>
TScn == Is("scn") /\ co' = <<>> /\ zs' = <<>> /\ fir' = NoFir /\ pend' = <<>>
TNext == TScn \/ TMk \/ TSet \/ TSetL \/ TSetM \/ TMsg \/ TBlk \/ TFMk \/ TFBlk \/ TRMk \/ TRLd \/ TRBlk \/ TText
TraceSpec == Init /\ [][TNext]_<<co, zs, fir, pend, l>>
TraceAccepted == LET d == TLCGet("stats").diameter IN d - 1 = Len(Trace) \/ (PrintT(<<"REJECTED_AT", d>>) /\ FALSE)
=============================================================================
