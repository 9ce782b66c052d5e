----------------------------- MODULE AllocTrace -----------------------------
EXTENDS Alloc, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
T == Trace[l]
Is(e) == l <= Len(Trace) /\ T.e = e /\ l' = l + 1
TNext == \/ Is("scn") /\ n' = 0 /\ chan' = <<>>
         \/ Is("mk") /\ Make(T.n) /\ T.max = T.n /\ T.used = 0 /\ T.chan = chan'
         \/ Is("set") /\ Set(T.ids, T.r, T.chan) /\ T.used = Cardinality(Objs(T.chan))
         \/ Is("query") /\ T.r = "ex" /\ UNCHANGED vars
TraceSpec == AllocInit /\ l = 1 /\ [][TNext]_<<vars, l>>
TraceAccepted == LET d == TLCGet("stats").diameter IN d - 1 = Len(Trace) \/ (PrintT(<<"REJECTED_AT", d>>) /\ FALSE)
=============================================================================
