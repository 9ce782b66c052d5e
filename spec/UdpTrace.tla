------------------------------ MODULE UdpTrace ------------------------------
EXTENDS Udp, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
T == Trace[l]
Is(e) == l <= Len(Trace) /\ T.e = e /\ l' = l + 1
FitsUdp(m) == m[1] <= 65507
Init == UInit /\ l = 1
TScn == Is("scn") /\ smode' = "none" /\ rmode' = "none" /\ chain' = FALSE /\ inq' = <<>> /\ buf' = <<>> /\ wire' = <<>> /\ net' = <<>> /\ took' = <<>> /\ settled' = 0
Mode == IF T.m = 0 THEN "sync" ELSE "async"
TMks == Is("mks") /\ smode = "none" /\ smode' = Mode /\ chain' = T.chain /\ UNCHANGED <<rmode, inq, buf, wire, net, took, settled>>
TMkr == Is("mkr") /\ rmode = "none" /\ rmode' = Mode /\ UNCHANGED <<smode, chain, inq, buf, wire, net, took, settled>>
TPush == Is("push") /\ smode # "none" /\ Push(T.m, T.s, T.g)
TSp == Is("sp") /\ IF smode = "sync" THEN SendSync(T.s, T.g, T.r) ELSE SendAsync(T.s, T.g, T.r)
TRp == Is("rp") /\ T.r = "" /\ IF rmode = "sync" THEN RecvSync(T.s, T.g, T.o, T.dry) ELSE RecvAsync(T.s, T.g, T.o)
TTs == Is("ts") /\ Arrive(T.m, T.s, T.g)
TStep == Is("step") /\ Step(T.s, T.g)
TIdle == Is("idle") /\ T.ok /\ Idle(T.s, T.g)
TPeer == Is("peer") /\ T.ok /\ T.src /\ Peer(T.s, T.g, T.o)
\* a destroyed sender loses what it has not sent, a destroyed receiver what it has not published
TDel == /\ Is("del") /\ IsPrefix(T.s, buf) /\ wire' = (IF chain THEN wire ELSE wire \o T.s)
        /\ LET n == IF chain THEN net \o T.s ELSE net IN
           /\ IsPrefix(T.g, n)
           /\ IF T.w = 0 THEN smode' = "none" /\ chain' = FALSE /\ inq' = <<>> /\ buf' = <<>> /\ net' = Drop(n, Len(T.g)) /\ took' = took \o T.g /\ UNCHANGED <<rmode, settled>>
              ELSE rmode' = "none" /\ net' = <<>> /\ took' = <<>> /\ settled' = 0 /\ buf' = Drop(buf, Len(T.s)) /\ UNCHANGED <<smode, chain, inq>>
TNext == TScn \/ TMks \/ TMkr \/ TPush \/ TSp \/ TRp \/ TTs \/ TStep \/ TIdle \/ TPeer \/ TDel
TraceSpec == Init /\ [][TNext]_<<uv, l>>
TraceAccepted == LET d == TLCGet("stats").diameter IN d - 1 = Len(Trace) \/ (PrintT(<<"REJECTED_AT", d>>) /\ FALSE)
=============================================================================
