----------------------------- MODULE ListsTrace -----------------------------
EXTENDS Lists, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l
T == Trace[l]
Is(e) == l <= Len(Trace) /\ T.e = e /\ l' = l + 1
Parse == /\ Is("parse")
         /\ LET x == Expand(T.t, T.k # "i") IN
            IF x = Err THEN T.r = "ex" ELSE T.r = "" /\ T.v = x /\ T.same
\* a printed list, read as an expression, is the list (an empty one prints as nothing)
PrintBack == Is("print") /\ T.r = "" /\ (IF T.v = <<>> THEN T.t = <<>> ELSE Expand(T.t, T.k # "i") = T.v)
CR == /\ Is("range") /\ T.r = (IF CRValid(T.a, T.b, T.s) THEN "" ELSE "ex") /\ T.valid = CRValid(T.a, T.b, T.s)
      /\ CRValid(T.a, T.b, T.s) => T.v = CRange(T.a, T.b, T.s) /\ T.over = "ex" /\ T.same /\ T.set = ""
CL == Is("chlist") /\ T.v = Concat([i \in 1..Len(T.parts) |-> CRange(T.parts[i][1], T.parts[i][2], T.parts[i][3])]) /\ T.over = "ex" /\ T.same
Lit == Is("lit") /\ T.v = T.in /\ T.same
TNext == Is("scn") \/ Parse \/ PrintBack \/ CR \/ CL \/ Lit
TraceSpec == l = 1 /\ [][TNext]_l
TraceAccepted == LET d == TLCGet("stats").diameter IN d - 1 = Len(Trace) \/ (PrintT(<<"REJECTED_AT", d>>) /\ FALSE)
=============================================================================
