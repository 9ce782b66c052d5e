---------------------------- MODULE ObjCalcTrace ----------------------------
EXTENDS ObjCalc, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l
T == Trace[l]
Is(e) == l <= Len(Trace) /\ T.e = e /\ l' = l + 1
Rest == UNCHANGED <<pan, rad, hoa>>
TArr == Is("arr") /\ arr' = Put(arr, T.k, T.s) /\ UNCHANGED ovars /\ Rest
NoArray == [n |-> 0]
TMk == /\ Is("mk") /\ UNCHANGED arr /\ Rest
       /\ cmp' = [kind |-> T.kind, n |-> T.n, x |-> T.x, a |-> IF T.a < 0 THEN NoArray ELSE arr[T.a]]
       /\ ov' = <<>> /\ at' = (IF T.kind = "pc" THEN <<T.x[6], T.x[7], T.x[8]>> ELSE <<0, 0, 0>>) /\ pend' = FALSE /\ out' = <<>>
\* observed double-buffered outputs (values only)
Seen == CASE cmp.kind = "gq" -> <<T.g, T.q>> [] cmp.kind = "cr" -> T.w [] cmp.kind = "lc" -> <<T.g, T.y>> [] OTHER -> <<>>
Due == IF cmp.kind = "lc" THEN T.p # <<>> ELSE T.give
Flags(b) == \A i \in 1..Len(T.f): T.f[i] = IF b THEN 1 ELSE 0
Good == CASE cmp.kind = "gq" -> LevelsOk(cmp, ov', T.g, T.q) [] cmp.kind = "cr" -> RoutingOk(cmp, cmp.a, ov', T.w) [] OTHER -> CompensationOk(cmp.a, at', T.g, T.y)
Buffered == IF cmp.kind = "gq" /\ (Due \/ pend) /\ LevelsRefused(cmp, ov')
            THEN (Due => T.r = "ex") /\ Flags(FALSE) /\ (out # <<>> => Seen = out) /\ pend' = TRUE
            ELSE T.r = "" /\ Flags(Due) /\ (IF Due THEN Good ELSE out # <<>> => Seen = out) /\ pend' = FALSE
TBlk == /\ Is("blk") /\ UNCHANGED <<arr, cmp>> /\ Rest
        /\ ov' = (IF T.give THEN T.os ELSE ov) /\ at' = (IF T.p = <<>> THEN at ELSE T.p)
        /\ CASE cmp.kind = "pc" -> T.r = "" /\ TLCEval(PanOk(cmp, cmp.a, at', ov', T.lf, T.hf, T.df)) /\ UNCHANGED <<pend, out>>
             [] cmp.kind = "dg" -> T.r = "" /\ TLCEval(DiffuseOk(cmp, ov', T.g)) /\ UNCHANGED <<pend, out>>
             [] OTHER -> Buffered /\ out' = Seen
TNext == (Is("scn") /\ arr' = <<>> /\ cmp' = <<>> /\ ov' = <<>> /\ at' = <<0, 0, 0>> /\ pend' = FALSE /\ out' = <<>> /\ Rest) \/ TArr \/ TMk \/ TBlk
TraceSpec == l = 1 /\ arr = <<>> /\ pan = <<>> /\ rad = <<>> /\ hoa = <<>> /\ cmp = <<>> /\ ov = <<>> /\ at = <<0, 0, 0>> /\ pend = FALSE /\ out = <<>> /\ [][TNext]_<<vars, ovars, l>>
TraceAccepted == LET d == TLCGet("stats").diameter IN d - 1 = Len(Trace) \/ (PrintT(<<"REJECTED_AT", d>>) /\ FALSE)
=============================================================================
