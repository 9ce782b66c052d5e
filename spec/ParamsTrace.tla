---------------------------- MODULE ParamsTrace ----------------------------
EXTENDS Params, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, m, ip   \* m: slots; ip: the interpolation parameter
T == Trace[l]
Is(e) == l <= Len(Trace) /\ T.e = e /\ l' = l + 1
NoIp == [id |-> -2, ix |-> <<>>, w |-> <<>>]
Empty == [s \in Slots |-> None]
Init == m = Empty /\ ip = NoIp /\ l = 1
\* new state n, result r: both as recorded
To(n, r) == T.r = r /\ m' = n /\ (\A s \in Slots : T.m[s] = n[s]) /\ UNCHANGED ip
One(r, o) == To(IF r = "" THEN [m EXCEPT ![T.s] = o] ELSE m, r)
Made == CASE T.cls = "tf" -> <<"", TfObj(T.el, Al(T.al), T.c, T.ch, T.n, Zeros(T.n * T.ch, T.c))>>
          [] T.cls = "sp" -> <<"", Text(T.v[1])>>
          [] T.cls \in {"mat", "mp"} -> IF T.z THEN <<"", Obj(T.cls, T.el, Al(T.al), Zeros(T.n, T.c), T.n, T.c)>>
                                        ELSE IF Rect(T.v, T.n, T.c) THEN <<"", Obj(T.cls, T.el, Al(T.al), T.v, T.n, T.c)>> ELSE <<"ex", None>>
          [] T.cls \in {"vec", "vp"} -> IF T.z THEN <<"", Obj(T.cls, T.el, Al(T.al), Zeros(1, T.c), 1, T.c)>> ELSE <<"", Obj(T.cls, T.el, Al(T.al), T.v, 1, Len(T.v[1]))>>
Power2 == T.cls = "sp" \/ Al(T.al) \in {1, 2, 4, 8, 16, 32, 64}
TNew == Is("new") /\ LET o == TLCEval(Made) IN One(IF ~Power2 THEN "ex" ELSE o[1], o[2])
TCfg == Is("cfg") /\ IF T.k[1] = Wanted(T.cls) THEN One("", FromConfig(T.cls, IF T.cls = "sp" THEN "-" ELSE T.el, T.k, T.dal)) ELSE One("ex", None)
TText == Is("text") /\ LET o == TLCEval(FromText(T.cls, T.el, T.al, T.t)) IN One(o[1], o[2])
TWav == Is("wav") /\ IF T.cls = "vp" /\ Len(T.v) # 1 THEN One("ex", None) ELSE One("", Obj(T.cls, T.el, Al(T.al), T.v, Len(T.v), Len(T.v[1])))
TNoFile == Is("nofile") /\ T.r = "ex" /\ UNCHANGED <<m, ip>>
O == m[T.s]
TResize == Is("resize") /\ One("", Resize(O, T.x, T.y, T.z))
TFill == Is("fill") /\ One("", Fill(O, T.x))
TSet == Is("set") /\ LET o == TLCEval(Set(O, T.i, T.j, T.x)) IN One(o[1], o[2])
TGet == Is("get") /\ UNCHANGED <<m, ip>> /\ IF In(O, T.i, T.j) THEN T.r = "" /\ T.v = O.v[T.i + 1][T.j + 1] ELSE T.r = "ex" /\ T.v = 0
TRow == Is("row") /\ One("", Row(O, T.i, T.v))
TCol == Is("col") /\ One("", Col(O, T.i, T.v))
TTwo == Is("two") /\ LET p == TLCEval(Two(T.k, m[T.s], m[T.t]))
                     IN To(IF T.s = T.t THEN (IF p[1] = "" THEN [m EXCEPT ![T.s] = p[2]] ELSE m) ELSE [m EXCEPT ![T.s] = p[2], ![T.t] = p[3]], p[1])
TCmp == Is("cmp") /\ UNCHANGED <<m, ip>> /\ T.cl /\ IF T.x[1] # T.y[1] THEN T.r = "ex" /\ ~T.eq ELSE T.r = "" /\ T.eq = (Fields(T.x) = Fields(T.y))
N == Len(ip.ix)
At0(v) == IF v = <<>> THEN 0 ELSE v[1]
IpNext == CASE T.k \in {"new", "as"} -> IF Len(T.x) = Len(T.y) THEN <<"", [id |-> T.n, ix |-> T.x, w |-> T.y]>> ELSE <<"ex", ip>>
            [] T.k = "size" -> <<"", [id |-> T.n, ix |-> [i \in 1..Len(T.x) |-> -1], w |-> [i \in 1..Len(T.x) |-> 0]]>>
            [] T.k = "cfg" -> IF T.n = 4 THEN <<"", [id |-> -1, ix |-> [i \in 1..Len(T.x) |-> -1], w |-> [i \in 1..Len(T.x) |-> 0]]>> ELSE <<"ex", ip>>
            [] T.k = "id" -> <<"", [ip EXCEPT !.id = T.n]>>
            [] T.k = "si" -> IF T.n \in 0..(N - 1) THEN <<"", [ip EXCEPT !.ix[T.n + 1] = At0(T.x)]>> ELSE <<"ex", ip>>
            [] T.k = "sw" -> IF T.n \in 0..(N - 1) THEN <<"", [ip EXCEPT !.w[T.n + 1] = At0(T.y)]>> ELSE <<"ex", ip>>
            [] T.k = "sis" -> IF Len(T.x) = N THEN <<"", [ip EXCEPT !.ix = T.x]>> ELSE <<"ex", ip>>
            [] T.k = "sws" -> IF Len(T.y) = N THEN <<"", [ip EXCEPT !.w = T.y]>> ELSE <<"ex", ip>>
            [] T.k = "gi" -> <<IF T.n \in 0..(N - 1) THEN "" ELSE "ex", ip>>
            [] T.k = "cl" -> <<"", ip>>
            [] T.k = "bad" -> <<"ex", ip>>
TIp == Is("ip") /\ UNCHANGED m /\ LET p == TLCEval(IpNext) IN T.r = p[1] /\ ip' = p[2] /\ T.ip = p[2]
TScn == Is("scn") /\ m' = Empty /\ ip' = NoIp
TNext == TScn \/ TNew \/ TCfg \/ TText \/ TWav \/ TNoFile \/ TResize \/ TFill \/ TSet \/ TGet \/ TRow \/ TCol \/ TTwo \/ TCmp \/ TIp
TraceSpec == Init /\ [][TNext]_<<m, ip, l>>
TraceAccepted == LET d == TLCGet("stats").diameter IN d - 1 = Len(Trace) \/ (PrintT(<<"REJECTED_AT", d>>) /\ FALSE)
=============================================================================
