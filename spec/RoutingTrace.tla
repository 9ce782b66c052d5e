---------------------------- MODULE RoutingTrace ----------------------------
EXTENDS Routing, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
TSlots == 0..3
VARIABLES l
T == Trace[l]
Is(e) == l <= Len(Trace) /\ T.e = e /\ l' = l + 1
Ok == T.r = ""
SetOf(s) == {s[i] : i \in 1..Len(s)}
\* what the implementation shows of a table agrees with the table
Shows(x) == /\ SetOf(T.t) = x.t /\ Len(T.t) = Cardinality(x.t) /\ T.size = Cardinality(x.t) /\ T.emp = (x.t = {})
            /\ IF x.k = "signal"
               THEN /\ \A i \in 1..Len(T.q) : LET z == T.q[i] IN \* queries <<index, input of output, output of input, entry...>>
                         z[2] = InputOf(x.t, z[1]) /\ z[3] = OutputOf(x.t, z[1])
                         /\ <<z[4], z[5]>> = IF \E e \in x.t : e[2] = z[1] THEN <<InputOf(x.t, z[1]), z[1]>> ELSE <<-1, -1>>
               ELSE x.k = "filter" =>
                    \A i \in 1..Len(T.q) : LET z == T.q[i]
                                               m == {e \in x.t : e[1] = z[1] /\ e[2] = z[2]} IN
                       <<z[3], z[4], z[5], z[6]>> = IF m = {} THEN <<-1, -1, -1, 0>> ELSE CHOOSE e \in m : TRUE
TMk == Is("mk") /\ T.r \in {"", "ex"} /\ Make(T.s, T.k, T.es, Ok) /\ (Ok => Shows(tab'[T.s])) /\ UNCHANGED comp
TAdd == Is("add") /\ Ok /\ Add(T.s, T.x) /\ Shows(tab'[T.s]) /\ UNCHANGED comp
TRemK == Is("remk") /\ Ok /\ RemoveKey(T.s, T.key, T.ret) /\ Shows(tab'[T.s]) /\ UNCHANGED comp
TRemE == Is("reme") /\ Ok /\ RemoveEntry(T.s, T.x, T.ret) /\ Shows(tab'[T.s]) /\ UNCHANGED comp
TClear == Is("clear") /\ Ok /\ Clear(T.s) /\ Shows(tab'[T.s]) /\ UNCHANGED comp
TCopy == Is("copy") /\ Ok /\ Copy(T.o, T.s) /\ Shows(tab'[T.s]) /\ UNCHANGED comp
TSwap == Is("swap") /\ Ok /\ Swap(T.s, T.o) /\ Shows(tab'[T.s]) /\ UNCHANGED comp
TLook == Is("look") /\ Shows(tab[T.s]) /\ UNCHANGED <<tab, comp>>
TParse == /\ Is("parse") /\ T.r \in {"", "ex"}
          /\ Parse(T.s, IF tab[T.s].k = "signal" THEN SignalText(T.x) ELSE Json2Entries(tab[T.s].k, T.x), Ok)
          /\ Shows(tab'[T.s]) /\ UNCHANGED comp
TBad == Is("bad") /\ Parse(T.s, EErr, Ok) /\ T.r = "ex" /\ Shows(tab'[T.s]) /\ UNCHANGED comp
TCMk == Is("cmk") /\ T.r \in {"", "ex"} /\ CMake(T.ni, T.no, T.es, T.ctl, Ok) /\ (Ok => T.port = T.ctl) /\ UNCHANGED tab
TCSet == Is("cset") /\ T.r \in {"", "ex"} /\ CSet(T.x, Ok) /\ UNCHANGED tab
TCAll == Is("call") /\ T.r \in {"", "ex"} /\ CSetAll(T.es, Ok) /\ UNCHANGED tab
TCRem == Is("crem") /\ T.r \in {"", "ex"} /\ CRemove(T.x, Ok, T.ret) /\ UNCHANGED tab
TCPub == Is("cpub") /\ Ok /\ CPublish(T.es) /\ UNCHANGED tab
TBlk == Is("blk") /\ Ok /\ CBlock(T.in, T.out) /\ UNCHANGED tab
Scn == Is("scn") /\ tab' = [s \in Slots |-> None] /\ comp' = NoComp
TNext == Scn \/ TMk \/ TAdd \/ TRemK \/ TRemE \/ TClear \/ TCopy \/ TSwap \/ TLook \/ TParse \/ TBad \/ TCMk \/ TCSet \/ TCAll \/ TCRem \/ TCPub \/ TBlk
TraceSpec == RInit /\ CInit /\ l = 1 /\ [][TNext]_<<tab, comp, l>>
TraceAccepted == LET d == TLCGet("stats").diameter IN d - 1 = Len(Trace) \/ (PrintT(<<"REJECTED_AT", d>>) /\ FALSE)
=============================================================================
