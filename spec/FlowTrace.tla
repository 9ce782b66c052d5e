---------------------------- MODULE FlowTrace ----------------------------
EXTENDS Flow, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
TMode == IOEnv.MODE
VARIABLES l, per
T == Trace[l]
Is(e) == l <= Len(Trace) /\ T.e = e /\ l' = l + 1
K == UNCHANGED per
TScn == Is("scn") /\ Blank /\ K
TTop == Is("top") /\ per' = T.per /\ UNCHANGED vars
TSkip == phase = "skip" /\ l <= Len(Trace) /\ T.e # "scn" /\ l' = l + 1 /\ UNCHANGED vars /\ K
Live == phase # "skip"
Offs == [p \in {T.offs[i][1] : i \in 1..Len(T.offs)} |-> T.offs[CHOOSE i \in 1..Len(T.offs) : T.offs[i][1] = p][2]]
OffW == \A i \in 1..Len(T.offs) : T.offs[i][3] = ap[T.offs[i][1]].w
TReg == Live /\ K /\
  \/ Is("comp") /\ AddComp(T.id, T.par, T.comp)
  \/ Is("aport") /\ AddAudioPort(T.id, T.c, T.in, T.w, T.ty)
  \/ Is("pport") /\ AddParamPort(T.id, T.c, T.in, T.pr, T.ty)
  \/ Is("aconn") /\ ConnectAudio(T.lvl, T.sp, T.sc, T.rp, T.rc, T.r)
  \/ Is("pconn") /\ ConnectParam(T.lvl, T.s, T.q, T.r)
  \/ Is("build") /\ Build(T.r, Offs, T.nc, T.np, T.nr, T.ns) /\ (phase' = "idle" => Demand("P01", T.r2 = "" /\ OffW))
  \/ Is("unbuild") /\ Unbuild
TRun == Live /\ K /\
  \/ Is("beg") /\ Begin(T.in)
  \/ Is("exec") /\ T.inb /\ Exec(T.a, T.ins, T.same, T.outs, T.rc, T.take, T.sn, T.r, T.bc, T.smp, per, T.lk, T.thr)
  \/ Is("blk") /\ EndBlock(T.r, T.out, T.clean, T.lk, T.bc)
  \/ Is("xs") /\ ExtSend(T.p, T.op, T.v, T.r)
  \/ Is("xr") /\ ExtRecv(T.p, T.take, T.got, T.r)
  \/ Is("xbad") /\ Demand("P07", T.r1 = "ex" /\ T.r2 = "ex") /\ UNCHANGED vars
TraceInit == FlowInit /\ l = 1 /\ per = 0
TraceNext == TScn \/ TTop \/ TSkip \/ TReg \/ TRun
TraceSpec == TraceInit /\ [][TraceNext]_<<vars, l, per>>
TraceAccepted == LET d == TLCGet("stats").diameter IN d - 1 = Len(Trace) \/ (PrintT(<<"REJECTED_AT", d>>) /\ FALSE)
=============================================================================
