----------------------------- MODULE PoseTrace -----------------------------
EXTENDS Pose, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
T == Trace[l]
Is(e) == l <= Len(Trace) /\ T.e = e /\ l' = l + 1
Init == off = <<0, 0, 0>> /\ rot = One /\ queue = <<>> /\ pub = Nothing /\ any = FALSE /\ flag = FALSE /\ l = 1
TScn == Is("scn") /\ Start(<<0, 0, 0>>, One)
RotOf(f) == IF f.k = "d" THEN One ELSE Rotation(f)
TMk == Is("mk") /\ T.r = "" /\ Start(T.off, RotOf(T.rot))
TMsg == Is("msg") /\ Receive(T.m)
TBlk == Is("blk") /\ T.r = "" /\ Process
\* what a reader of the output sees
Shows(x) == /\ x.t = pub.t[2] /\ x.f = pub.f[2] /\ x.n = pub.n
            /\ IF any THEN PosIs(x.p, rot, pub.p, off) /\ MatIs(x.m, Mul(rot, pub.q)) ELSE x.p = <<0, 0, 0>> /\ MatIs(x.m, One)
TRead == Is("read") /\ T.ch = flag /\ TLCEval(Shows(T)) /\ IF T.reset THEN See ELSE UNCHANGED dv
\* a message read, written in some format and read again
Steep(q) == 100 * Abs(Mat(q)[3][1]) > 98 * N2(q)   \* yaw and roll are not determined well
Same(x, y) == /\ x.t = y.t[2] /\ x.f = y.f[2] /\ x.n = y.n /\ PosIs(x.p, One, y.p, <<0, 0, 0>>)
TRt == Is("rt") /\ UNCHANGED dv /\
       IF ~Valid(T.m) THEN T.r = "ex"
       ELSE LET y == Meaning(T.m) IN
            /\ T.r = "" /\ TLCEval(Same(T.a, y) /\ Same(T.b, y) /\ MatIs(T.a.m, y.q) /\ ((T.fmt = 0 /\ Steep(y.q)) \/ MatIs(T.b.m, y.q)))
TNext == TScn \/ TMk \/ TMsg \/ TBlk \/ TRead \/ TRt
TraceSpec == Init /\ [][TNext]_<<dv, l>>
TraceAccepted == LET d == TLCGet("stats").diameter IN d - 1 = Len(Trace) \/ (PrintT(<<"REJECTED_AT", d>>) /\ FALSE)
=============================================================================
