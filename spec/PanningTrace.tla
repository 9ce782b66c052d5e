---------------------------- MODULE PanningTrace ----------------------------
EXTENDS Panning, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l
T == Trace[l]
Is(e) == l <= Len(Trace) /\ T.e = e /\ l' = l + 1
None == [on |-> FALSE]
TArr == Is("arr") /\ arr' = Put(arr, T.k, T.s) /\ UNCHANGED <<pan, rad, hoa>>
TVb == Is("vb") /\ pan' = Put(pan, T.k, [a |-> arr[T.a], p |-> T.p]) /\ UNCHANGED <<arr, rad, hoa>>
TLis == Is("lis") /\ pan' = [pan EXCEPT ![T.k].p = T.p] /\ UNCHANGED <<arr, rad, hoa>>
TGain == Is("gain") /\ UNCHANGED vars /\ TLCEval(GainsOk(pan[T.k].a, pan[T.k].p, T.p, T.pw, T.nm, T.r, T.g))
TRad == /\ Is("rad") /\ UNCHANGED <<arr, pan, hoa>>
        /\ LET ok == RadAccepted(arr[T.a], T.o, T.m) IN
           /\ rad' = Put(rad, T.k, [a |-> arr[T.a], b |-> arr[T.b], m |-> T.m])
           /\ TLCEval(IF ok THEN T.r = "" /\ DecodeOk(T.m, arr[T.a], arr[T.b], <<0, 0, 0>>, T.g) ELSE T.r = "ex")
TRlis == Is("rlis") /\ UNCHANGED vars /\ TLCEval(DecodeOk(rad[T.k].m, rad[T.k].a, rad[T.k].b, T.p, T.g))
THoa == /\ Is("hoa") /\ UNCHANGED <<arr, pan, rad>> /\ T.r = (IF HoaAccepted(arr[T.a], T.m) THEN "" ELSE "ex")
        /\ hoa' = IF T.r = "" THEN [on |-> TRUE, n |-> T.n, a |-> arr[T.a], b |-> arr[T.b], m |-> T.m, p |-> T.p, ad |-> T.ad, os |-> <<>>] ELSE None
BlkOk == LET os == hoa'.os  rows == OnReal(hoa.a, hoa.b, hoa'.p)  dec == Decode(hoa.m, rows, hoa.b.n)  off == Slop(hoa.m, rows) IN
         IF HoaRefuses(os, hoa.n, Len(hoa.m)) THEN T.r = "ex"
         ELSE /\ T.r = "" /\ Len(T.g) = hoa.b.n
              /\ \A c \in 0..hoa.n - 1: LET S == Claims(os, c) IN
                   IF S = {} THEN \A s \in 1..hoa.b.n: T.g[s][c + 1] = T.inp[s][c + 1]
                   ELSE LET k == LastClaim(S)[2] IN \A s \in 1..hoa.b.n: Abs(T.g[s][c + 1] - dec[k][s]) <= off[k]
TBlk == /\ Is("blk") /\ hoa.on /\ UNCHANGED <<arr, pan, rad>>
        /\ hoa' = [hoa EXCEPT !.p = IF T.p = <<>> THEN @ ELSE T.p, !.os = IF T.give THEN T.os ELSE @]
        /\ TLCEval(BlkOk)
TNext == (Is("scn") /\ arr' = <<>> /\ pan' = <<>> /\ rad' = <<>> /\ hoa' = None) \/ TArr \/ TVb \/ TLis \/ TGain \/ TRad \/ TRlis \/ THoa \/ TBlk
TraceSpec == l = 1 /\ arr = <<>> /\ pan = <<>> /\ rad = <<>> /\ hoa = None /\ [][TNext]_<<vars, l>>
TraceAccepted == LET d == TLCGet("stats").diameter IN d - 1 = Len(Trace) \/ (PrintT(<<"REJECTED_AT", d>>) /\ FALSE)
=============================================================================
