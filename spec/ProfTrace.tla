----------------------------- MODULE ProfTrace -----------------------------
EXTENDS Prof, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, names   \* names: full names of the components in processing order
T == Trace[l]
Is(e) == l <= Len(Trace) /\ T.e = e /\ l' = l + 1
Init == n = 0 /\ on = FALSE /\ cap = 0 /\ meas = <<>> /\ stat = <<>> /\ l = 1 /\ names = <<>>
RECURSIVE Names(_, _)
Names(items, i) == IF i > Len(items) THEN <<>>
                   ELSE (IF items[i] = 0 THEN <<"c" \o ToString(i - 1)>> ELSE [k \in 1..items[i] |-> "s" \o ToString(i - 1) \o ":c" \o ToString(k - 1)]) \o Names(items, i + 1)
TMk == Is("mk") /\ names' = Names(T.items, 1) /\ n' = Len(names') /\ on' = FALSE /\ cap' = 0 /\ meas' = <<>> /\ stat' = <<>>
Keep == UNCHANGED <<n, names>>
TEn == Is("en") /\ Keep /\ Enable(T.cap) /\ T.p = on /\ T.now
TDis == Is("dis") /\ Keep /\ Disable /\ T.p = on /\ ~T.now
Offset == (n * (n + 1)) \div 2
TBlk == /\ Is("blk") /\ Keep /\ UNCHANGED <<on, cap>>
        /\ IF T.f >= 0 THEN T.r = "ex" /\ UNCHANGED <<meas, stat>>
           ELSE T.r = "" /\ T.y = [k \in 1..4 |-> T.x + k - 1 + Offset] /\ Block(T.d)
Off == ~on /\ T.r = "logic" /\ UNCHANGED pv
TGet == Is("getm") /\ UNCHANGED names /\
        \/ Off
        \/ on /\ T.r = "" /\ T.c = Len(meas) /\ Len(T.m) = cap /\ TLCEval(\A i \in DOMAIN Shown : T.m[i + 1] = Shown[i]) /\ meas' = <<>> /\ UNCHANGED <<n, on, cap, stat>>
K == Len(stat)
TMean == Is("mean") /\ UNCHANGED <<pv, names>> /\
         \/ Off
         \/ on /\ IF T.bad # 0 THEN T.r = "inv" ELSE T.r = "" /\ TLCEval(IF K = 0 THEN AllNaN(T.v) ELSE MeanOk(T.v))
TVar == Is("var") /\ UNCHANGED <<pv, names>> /\
         \/ Off
         \* for less than two samples the documentation promises an exception, the implementation answers NaN: both are taken
         \/ on /\ IF T.bad # 0 THEN T.r = "inv" ELSE IF K < 2 THEN T.r = "logic" \/ (T.r = "" /\ TLCEval(AllNaN(T.v))) ELSE T.r = "" /\ TLCEval(VarOk(T.v))
TStats == Is("stats") /\ UNCHANGED names /\
         \/ Off
         \/ on /\ T.bad /\ T.r = "inv" /\ UNCHANGED pv
         \/ /\ on /\ ~T.bad /\ T.r = "" /\ T.c = K /\ UNCHANGED <<n, on, cap, meas>>
            /\ TLCEval((K >= 1 => MeanOk(T.v)) /\ IF K < 2 THEN AllNaN(T.w) ELSE VarOk(T.w))
            /\ stat' = IF T.z = 1 THEN <<>> ELSE stat
TRstM == Is("rstm") /\ UNCHANGED names /\ (Off \/ (on /\ T.r = "" /\ meas' = <<>> /\ UNCHANGED <<n, on, cap, stat>>))
TRstS == Is("rsts") /\ UNCHANGED names /\ (Off \/ (on /\ T.r = "" /\ stat' = <<>> /\ UNCHANGED <<n, on, cap, meas>>))
TCnt == Is("cnt") /\ UNCHANGED names /\
        (Off \/ (on /\ T.r = "" /\ UNCHANGED pv /\ T.ms = Len(meas) /\ T.ss = K /\ T.bs = cap /\ T.nc = n /\ T.names = names /\ T.w))
TConc == Is("conc") /\ UNCHANGED names /\ on /\ T.total = T.n /\ T.stats = T.n /\ T.bad = 0 /\ meas' = <<>> /\ stat' = <<>> /\ UNCHANGED <<n, on, cap>>
TScn == Is("scn") /\ n' = 0 /\ on' = FALSE /\ cap' = 0 /\ meas' = <<>> /\ stat' = <<>> /\ names' = <<>>
TNext == TScn \/ TMk \/ TEn \/ TDis \/ TBlk \/ TGet \/ TMean \/ TVar \/ TStats \/ TRstM \/ TRstS \/ TCnt \/ TConc
TraceSpec == Init /\ [][TNext]_<<pv, l, names>>
TraceAccepted == LET d == TLCGet("stats").diameter IN d - 1 = Len(Trace) \/ (PrintT(<<"REJECTED_AT", d>>) /\ FALSE)
=============================================================================
