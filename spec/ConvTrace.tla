----------------------------- MODULE ConvTrace -----------------------------
EXTENDS Conv, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
T == Trace[l]
Is(e) == l <= Len(Trace) /\ T.e = e /\ l' = l + 1
C0 == [kind |-> "mc", ni |-> 0, no |-> 0, b |-> 1, L |-> 1, maxR |-> 0, maxF |-> 0, T |-> 0, nint |-> 0]
Init == cfg = C0 /\ st = Blank(C0) /\ hist = <<>> /\ q = NoQ /\ l = 1
Same == UNCHANGED <<cfg, hist, q>>
\* the reported number of routing points (-1: not observable)
Count(s) == T.n = -1 \/ T.n = Cardinality(DOMAIN s.rt)
To(s) == st' = s /\ Count(s)
Res(bad) == T.r = IF bad THEN "ex" ELSE ""
RECURSIVE Ips(_, _, _)
Ips(c, s, es) == IF es = <<>> THEN <<TRUE, s>> ELSE IF IBad(c, es[1].id, es[1].ix) THEN <<FALSE, s>>
                 ELSE Ips(c, TLCEval(SetI(c, s, es[1].id, es[1].ix, es[1].w, FALSE)), Tail(es))
TMk == /\ Is("mk") /\ q' = NoQ
       /\ LET c == T.cfg IN
          /\ cfg' = c /\ hist' = ZeroHist(c)
          /\ LET bad == AllFBad(c, T.flt) \/ ~AllROk(c, Blank(c), T.rt) \/ \E k \in 1..Len(T.ip) : IBad(c, T.ip[k].id, T.ip[k].ix)
             IN Res(bad) /\ IF bad THEN st' = Blank(c) ELSE To(TLCEval(Ips(c, AllR(c, AllF(c, Blank(c), T.flt), T.rt), T.ip)[2])) /\ T.dim
TSetF == Is("setf") /\ Same /\ LET b == FBad(cfg, T.idx, Len(T.ir)) IN Res(b) /\ To(IF b THEN st ELSE TLCEval(SetF(cfg, st, T.idx, T.ir, T.st)))
TInitF == Is("initf") /\ Same /\ LET b == AllFBad(cfg, T.irs) IN Res(b) /\ (IF b THEN st' \in AllFRefused(cfg, st) ELSE To(AllF(cfg, st, T.irs)))
TClrF == Is("clrf") /\ Same /\ Res(FALSE) /\ To(ClearF(cfg, st))
TSetR == Is("setr") /\ Same /\ LET b == RBad(cfg, st, T.en) IN Res(b) /\ To(IF b THEN st ELSE SetR(st, T.en))
TRmR == Is("rmr") /\ Same /\ T.r = (<<T.o, T.i>> \in DOMAIN st.rt) /\ To(DelR(st, T.i, T.o))
TInitR == /\ Is("initr") /\ Same /\ Res(~AllROk(cfg, st, T.es))
          /\ IF ~AllROk(cfg, st, T.es) THEN st' \in {s \in AllRRefused(cfg, st, T.es) : Count(s)} ELSE To(AllR(cfg, st, T.es))
TAddRs == /\ Is("addrs") /\ Same /\ Res(~AddR(cfg, st, T.es)[1])
          /\ IF ~AddR(cfg, st, T.es)[1] THEN st' \in {AddR(cfg, st, SubSeq(T.es, 1, k))[2] : k \in 0..Len(T.es)} ELSE To(AddR(cfg, st, T.es)[2])
TClrR == Is("clrr") /\ Same /\ Res(FALSE) /\ To(NoR(st))
TIp == Is("ipol") /\ Same /\ LET b == IBad(cfg, T.id, T.ix) IN Res(b) /\ To(IF b THEN st ELSE TLCEval(SetI(cfg, st, T.id, T.ix, T.w, T.st)))
TClrI == Is("clri") /\ Same /\ Res(FALSE) /\ To(Mute(st))
\* messages
TMsgF == Is("msgf") /\ UNCHANGED <<cfg, hist, st>> /\ q' = [q EXCEPT !.f = Append(@, [idx |-> T.idx, ir |-> T.ir])]
TMsgR == Is("msgr") /\ UNCHANGED <<cfg, hist, st>> /\ q' = [q EXCEPT !.r = Append(@, T.en)]
TMsgA == Is("msga") /\ UNCHANGED <<cfg, hist, st>> /\ q' = [q EXCEPT !.a = <<T.es>>]
TMsgI == Is("msgi") /\ UNCHANGED <<cfg, hist, st>> /\ q' = [q EXCEPT !.i = Append(@, [id |-> T.id, ix |-> T.ix, w |-> T.w])]
TBlk == /\ Is("blk") /\ UNCHANGED cfg
        /\ \E t \in TLCEval(Take(cfg, st, q)) :
             /\ T.r = IF t.ok THEN "" ELSE "ex"
             /\ q' = t.q
             /\ IF ~t.ok THEN st' = t.st /\ UNCHANGED hist
                ELSE LET h == TLCEval(Shift(hist, T.x)) IN TLCEval(Exact(cfg, t.st, h, T.y)) /\ hist' = h /\ st' = TLCEval(Advance(cfg, t.st))
TScn == Is("scn") /\ cfg' = C0 /\ st' = Blank(C0) /\ hist' = <<>> /\ q' = NoQ
TNext == TScn \/ TMk \/ TSetF \/ TInitF \/ TClrF \/ TSetR \/ TRmR \/ TInitR \/ TAddRs \/ TClrR \/ TIp \/ TClrI \/ TMsgF \/ TMsgR \/ TMsgA \/ TMsgI \/ TBlk
TraceSpec == Init /\ [][TNext]_<<cfg, st, hist, q, l>>
TraceAccepted == LET d == TLCGet("stats").diameter IN d - 1 = Len(Trace) \/ (PrintT(<<"REJECTED_AT", d>>) /\ FALSE)
=============================================================================
