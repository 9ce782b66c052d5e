------------------------------ MODULE FlexTrace ------------------------------
EXTENDS Flex, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
T == Trace[l]
Is(e) == l <= Len(Trace) /\ T.e = e /\ l' = l + 1
TScn == Is("scn") /\ per' = 0 /\ nin' = 0 /\ nout' = 0 /\ pend' = <<>> /\ outq' = <<>> /\ left' = -1 /\ level' = 0
TNext == \/ TScn
         \/ Is("mk") /\ Make(T.per, T.ni, T.no) /\ level' = 0
         \/ Is("begin") /\ Begin(T.n, T.in)
         \/ Is("flow") /\ RunFlow(T.in, T.out)
         \/ Is("end") /\ T.r = "" /\ T.pad /\ End(T.out)
TraceSpec == FlexInit /\ level = 0 /\ l = 1 /\ [][TNext]_<<fvars, l>>
TraceAccepted == LET d == TLCGet("stats").diameter IN d - 1 = Len(Trace) \/ (PrintT(<<"REJECTED_AT", d>>) /\ FALSE)
=============================================================================
