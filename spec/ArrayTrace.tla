----------------------------- MODULE ArrayTrace -----------------------------
EXTENDS Array, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l
T == Trace[l]
Is(e) == l <= Len(Trace) /\ T.e = e /\ l' = l + 1
Known1(k) == k \in DOMAIN arr /\ "u" \notin DOMAIN arr[k]
TLoad == Is("load") /\ Load(T.k, T.d) /\ TLCEval(IF Accepted(T.d) THEN T.r = "" /\ arr'[T.k] = T.s ELSE T.r = "ex")
TAsg == Is("asg") /\ Assign(T.k, T.f) /\ TLCEval("u" \in DOMAIN Get(T.f) \/ Get(T.f) = T.s)
TNew == Is("new") /\ New(T.k) /\ TLCEval(T.s = Empty)
TLook == Is("look") /\ UNCHANGED arr /\ TLCEval("u" \in DOMAIN Get(T.k) \/ Get(T.k) = T.s)
TFind == Is("find") /\ UNCHANGED arr /\ TLCEval("u" \in DOMAIN Get(T.k) \/ T.x = Find(T.k, T.id))
TNext == (Is("scn") /\ arr' = <<>>) \/ TLoad \/ TAsg \/ TNew \/ TLook \/ TFind
TraceSpec == l = 1 /\ arr = <<>> /\ [][TNext]_<<arr, l>>
TraceAccepted == LET d == TLCGet("stats").diameter IN d - 1 = Len(Trace) \/ (PrintT(<<"REJECTED_AT", d>>) /\ FALSE)
=============================================================================
