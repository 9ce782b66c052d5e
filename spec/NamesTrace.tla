----------------------------- MODULE NamesTrace -----------------------------
EXTENDS Names, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, seen   \* seen: ids listed by the dump in progress
T == Trace[l]
Is(e) == l <= Len(Trace) /\ T.e = e /\ l' = l + 1
Empty == [x \in {} |-> 0]
Init == comps = Empty /\ ports = Empty /\ clocks = <<>> /\ conn = Empty /\ l = 1 /\ seen = 0
TScn == Is("scn") /\ comps' = Empty /\ ports' = Empty /\ clocks' = <<>> /\ conn' = Empty /\ seen' = 0
Keep == UNCHANGED seen
Same == UNCHANGED nv
TMkC == /\ Is("mkc") /\ Keep
        /\ IF MayCreate(T.n, T.par) THEN T.r = "" /\ Create(T.i, T.n, T.par, T.co) ELSE T.r = "inv" /\ Same
TMkF == Is("mkf") /\ Keep /\ Same /\ T.r = IF MayCreate(T.n, T.par) THEN "ex" ELSE "inv"
TRmC == Is("rmc") /\ Keep /\ Destroy(T.i)
Au == T.k \in {"ai", "ao"}
TMkP == /\ Is("mkp") /\ Keep
        /\ IF ~MayCreatePort(T.c, Au, T.n) THEN T.r = "inv" /\ Same
           ELSE IF T.k = "pp" /\ T.w # 0 THEN T.r # "" /\ Same   \* no such protocol
           ELSE T.r = "" /\ CreatePort(T.i, T.c, Au, T.n, IF Au THEN T.w ELSE 0)
TRmP == Is("rmp") /\ Keep /\ DestroyPort(T.i)
TSetW == Is("setw") /\ Keep /\ SetWidth(T.i, T.w)
TTick == Is("tick") /\ Keep /\ Tick(T.i)
TComp == /\ Is("comp") /\ Same /\ seen' = seen + 1 /\ T.i \in DOMAIN comps
         /\ LET c == comps[T.i] IN
            /\ T.n = c.n /\ T.f = FullName(T.i) /\ T.top = (c.par = 0) /\ T.co = c.co /\ T.par = c.par /\ T.kids = c.kids /\ T.nk = Len(c.kids)
            /\ T.kn = [k \in DOMAIN c.kids |-> comps[c.kids[k]].n]
            /\ T.ap = c.ap /\ T.an = [k \in DOMAIN c.ap |-> ports[c.ap[k]].n] /\ T.aw = [k \in DOMAIN c.ap |-> ports[c.ap[k]].w]
            /\ T.pp = c.pp /\ T.pn = [k \in DOMAIN c.pp |-> ports[c.pp[k]].n]
            /\ T.t = clocks[c.clk] /\ T.s = 16 * T.t /\ T.per
TPort == /\ Is("port") /\ Same /\ seen' = seen + 1 /\ T.i \in DOMAIN ports
         /\ LET p == ports[T.i] IN T.n = p.n /\ T.has = (p.c # 0) /\ T.w = p.w /\ T.par = p.c /\ T.r = IF p.c = 0 THEN "logic" ELSE ""
TEnd == Is("end") /\ Same /\ T.nc = Cardinality(DOMAIN comps) /\ T.np = Cardinality(DOMAIN ports) /\ seen = T.nc + T.np /\ seen' = 0
TGet == /\ Is("get") /\ Keep /\ Same /\ LET p == FindPort(T.c, T.k = "a", T.n) IN T.p = p /\ T.q = p /\ T.r = (IF p = 0 THEN "inv" ELSE "") /\ T.s = T.r
TFind == /\ Is("find") /\ Keep /\ Same /\ T.x = FindComp(T.c, T.n) /\ T.y = T.x /\ T.p = FindIn(T.c, T.n, T.k = "a", T.pn)
\* a port whose component is gone may be reported as any logic error
Refused(s, t) == T.r = "inv" \/ (T.r = "logic" /\ (ports[s].c = 0 \/ ports[t].c = 0))
Idx(q) == [k \in 1..ports[q].w |-> k - 1]
TAcR == /\ Is("acr") /\ Keep
        /\ IF AudioOk(T.c, T.s, T.t, T.x, T.y) THEN T.r = "" /\ IF T.x = <<>> THEN Same ELSE AddAudio(T.c, T.s, T.t, T.x, T.y) ELSE Refused(T.s, T.t) /\ Same
TAcW == /\ Is("acw") /\ Keep
        /\ IF ports[T.s].w = ports[T.t].w /\ AudioOk(T.c, T.s, T.t, Idx(T.s), Idx(T.t))
           THEN T.r = "" /\ IF ports[T.s].w = 0 THEN Same ELSE AddAudio(T.c, T.s, T.t, Idx(T.s), Idx(T.t))
           ELSE Refused(T.s, T.t) /\ Same
\* by names: both ports must be found
TAcN == /\ Is("acn") /\ Keep
        /\ LET s == FindIn(T.c, T.n[1], TRUE, T.n[2]) t == FindIn(T.c, T.n[3], TRUE, T.n[4])
           IN IF s = 0 \/ t = 0 THEN T.r = "inv" /\ Same
              ELSE IF T.r = "" THEN AddAudio(T.c, s, t, T.x, T.y) ELSE ~AudioOk(T.c, s, t, T.x, T.y) /\ T.r = "inv" /\ Same
TPcN == /\ Is("pcn") /\ Keep
        /\ LET s == FindIn(T.c, T.n[1], FALSE, T.n[2]) t == FindIn(T.c, T.n[3], FALSE, T.n[4])
           IN IF s = 0 \/ t = 0 THEN T.r = "inv" /\ Same ELSE T.r = "" /\ AddParam(T.c, s, t)
TPcR == /\ Is("pcr") /\ Keep
        /\ IF Inside(T.c, T.s) /\ Inside(T.c, T.t) THEN T.r = "" /\ AddParam(T.c, T.s, T.t) ELSE Refused(T.s, T.t) /\ Same
\* what became of connections of destroyed ports is left open; the list is only asked for while all ports of the composite exist
Live(c) == /\ \A k \in DOMAIN conn[c].a : Range(conn[c].a[k][1]) \subseteq DOMAIN ports
           /\ \A k \in DOMAIN conn[c].p : Range(conn[c].p[k]) \subseteq DOMAIN ports
TConns == Is("conns") /\ Keep /\ Same /\ TLCEval(Live(T.i) => SameBag(T.a, conn[T.i].a) /\ SameBag(T.p, conn[T.i].p))
TNext == TScn \/ TMkC \/ TMkF \/ TRmC \/ TMkP \/ TRmP \/ TSetW \/ TTick \/ TComp \/ TPort \/ TEnd \/ TGet \/ TFind \/ TAcR \/ TAcW \/ TAcN \/ TPcN \/ TPcR \/ TConns
TraceSpec == Init /\ [][TNext]_<<nv, l, seen>>
TraceAccepted == LET d == TLCGet("stats").diameter IN d - 1 = Len(Trace) \/ (PrintT(<<"REJECTED_AT", d>>) /\ FALSE)
=============================================================================
