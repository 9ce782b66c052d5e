---------------------------- MODULE RendererTrace ----------------------------
EXTENDS Renderer, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l
T == Trace[l]
Is(e) == l <= Len(Trace) /\ T.e = e /\ l' = l + 1
Rest == UNCHANGED <<pan, rad, hoa, pend, out>>
TArr == Is("arr") /\ arr' = Put(arr, T.k, T.s) /\ UNCHANGED <<cmp, ov, at>> /\ Rest
TMk == /\ Is("mk") /\ UNCHANGED arr /\ Rest /\ ov' = <<>> /\ at' = <<0, 0, 0>>
       /\ LET a == arr[T.a]  c == [nin |-> T.nin, nout |-> T.nout, track |-> T.track, ns |-> T.ns, fd |-> T.fd, flt |-> T.flt, net |-> T.net, a |-> a] IN
          IF TLCEval(Accepts(c, a)) THEN T.r = "" /\ cmp' = c ELSE T.r = "ex" /\ cmp' = <<>>
TPlay == /\ Is("play") /\ UNCHANGED <<arr, cmp>> /\ Rest
         /\ ov' = (IF T.give THEN (IF cmp.net THEN Updated(ov, T.os) ELSE T.os) ELSE ov) /\ at' = (IF T.p = <<>> THEN at ELSE T.p)
         /\ T.r = "" /\ T.end /\ TLCEval(PlayOk(cmp, cmp.a, at', ov', T.st, T.dc, T.ny, T.full, T.im))
TNext == (Is("scn") /\ arr' = <<>> /\ cmp' = <<>> /\ ov' = <<>> /\ at' = <<0, 0, 0>> /\ Rest) \/ TArr \/ TMk \/ TPlay
TraceSpec == l = 1 /\ arr = <<>> /\ pan = <<>> /\ rad = <<>> /\ hoa = <<>> /\ cmp = <<>> /\ ov = <<>> /\ at = <<0, 0, 0>> /\ pend = FALSE /\ out = <<>> /\ [][TNext]_<<vars, ovars, l>>
TraceAccepted == LET d == TLCGet("stats").diameter IN d - 1 = Len(Trace) \/ (PrintT(<<"REJECTED_AT", d>>) /\ FALSE)
=============================================================================
