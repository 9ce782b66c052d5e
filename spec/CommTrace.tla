---------------------------- MODULE CommTrace ----------------------------
EXTENDS Comm, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
T == Trace[l]
Is(e) == l <= Len(Trace) /\ T.e = e /\ l' = l + 1
\* after every call all ports report the protocol instance they are attached to
Ports == inOf' = T.ins /\ outOf' = T.outs
Ok == T.r = ""

TScn == Is("scn") /\ kind' = "none" /\ np' = 0 /\ ni' = 0 /\ no' = 0 /\ inOf' = <<>> /\ outOf' = <<>>
        /\ que' = <<>> /\ front' = <<>> /\ back' = <<>> /\ changed' = <<>>
TMk == Is("mk") /\ T.types /\ Make(T.kind, T.np, T.ni, T.no) /\ Ports
TCin == Is("cin") /\ ConnectIn(T.p, T.x, T.r) /\ Ports
TCout == Is("cout") /\ ConnectOut(T.p, T.x, T.r) /\ Ports
TDin == Is("din") /\ DisconnectIn(T.p, T.x, T.r) /\ Ports
TDout == Is("dout") /\ DisconnectOut(T.p, T.x, T.r) /\ Ports
PortOps == {"enq", "osize", "isize", "front", "pop", "clear", "set", "get", "swap", "read", "changed", "reset"}
TUn == \E op \in PortOps : Is(op) /\ T.r = "unconn" /\ Unattached(op, T.x) /\ Ports
TOps == \/ Is("enq") /\ Ok /\ Enqueue(T.x, T.v) /\ Ports
        \/ Is("osize") /\ Ok /\ SizeOut(T.x, T.res, T.flag) /\ Ports
        \/ Is("isize") /\ Ok /\ SizeIn(T.x, T.res, T.flag) /\ Ports
        \/ Is("front") /\ Front(T.x, T.r, T.res) /\ Ports
        \/ Is("pop") /\ Pop(T.x, T.r) /\ Ports
        \/ Is("clear") /\ Ok /\ Clear(T.x) /\ Ports
        \/ Is("set") /\ Ok /\ Set(T.x, T.v) /\ Ports
        \/ Is("get") /\ Ok /\ Get(T.x, T.res) /\ Ports
        \/ Is("swap") /\ Ok /\ Swap(T.x, T.v # 0) /\ Ports
        \/ Is("read") /\ Ok /\ Read(T.x, T.res) /\ Ports
        \/ Is("changed") /\ Ok /\ Changed(T.x, T.flag) /\ Ports
        \/ Is("reset") /\ Ok /\ Reset(T.x) /\ Ports
TraceInit == CommInit /\ l = 1
TraceNext == TScn \/ TMk \/ TCin \/ TCout \/ TDin \/ TDout \/ TUn \/ TOps
TraceSpec == TraceInit /\ [][TraceNext]_<<vars, l>>
TraceAccepted == LET d == TLCGet("stats").diameter IN d - 1 = Len(Trace) \/ (PrintT(<<"REJECTED_AT", d>>) /\ FALSE)
=============================================================================
