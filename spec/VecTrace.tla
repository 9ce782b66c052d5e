----------------------------- MODULE VecTrace -----------------------------
EXTENDS Vec, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l
T == Trace[l]
Is(e) == l <= Len(Trace) /\ T.e = e /\ l' = l + 1
Logged == [b \in 1..3 |-> [j \in 1..Len(T.re[b]) |-> <<T.re[b][j], T.im[b][j]>>]]
Same == TLCEval(mem' = Logged)
TSet == Is("set") /\ mem' = Logged
TOp == Is("op") /\ Op(T) /\ T.r = Result(T) /\ Same
TProd == Is("prod") /\ Prod(T.d, T.x, T.y, T.s) /\ T.r = "" /\ Same
ConvAligned == Fits(<<1, T.so>>, T.al) /\ Fits(<<1, T.do>>, T.al)
ConvOk == IF ConvAligned THEN T.r = "" /\ T.md = Converted(T) ELSE T.r = "align" /\ T.md = T.dst
TConv == Is("conv") /\ UNCHANGED mem /\ T.ms = T.src /\ TLCEval(ConvOk)
LagrOk == T.ok /\ \A i \in 0..T.n: LET v == T.v[IF T.rev THEN T.n - i + 1 ELSE i + 1]  w == Lagrange(i, T.n, T.mu2) IN v - w \in -8..9
TLagr == Is("lagr") /\ UNCHANGED mem /\ TLCEval(LagrOk)
TNext == (Is("scn") /\ mem' = <<>>) \/ (Is("use") /\ UNCHANGED mem) \/ TSet \/ TOp \/ TProd \/ TConv \/ TLagr
TraceSpec == l = 1 /\ mem = <<>> /\ [][TNext]_<<mem, l>>
TraceAccepted == LET d == TLCGet("stats").diameter IN d - 1 = Len(Trace) \/ (PrintT(<<"REJECTED_AT", d>>) /\ FALSE)
=============================================================================
