------------------------------ MODULE FlowMC ------------------------------
(* All sets of connections over three small signatures. The model registers any subset, builds, and executes the
   components in every order the rules allow; samples are symbolic terms. *)
EXTENDS Flow, TLC, Json, IOUtils
CONSTANTS Sig, MaxE, Blocks
VARIABLES pool, chosen, pchosen

\* 1: two atoms side by side; 2: one nested; 3: parameter ports of two protocols
Cs == CASE Sig = 1 -> << <<0, TRUE>>, <<1, FALSE>>, <<1, FALSE>> >>
        [] Sig = 2 -> << <<0, TRUE>>, <<1, TRUE>>, <<2, FALSE>>, <<1, FALSE>> >>
        [] OTHER  -> << <<0, TRUE>>, <<1, FALSE>>, <<1, FALSE>> >>
As == CASE Sig = 1 -> << <<1, TRUE>>, <<1, FALSE>>, <<2, TRUE>>, <<2, FALSE>>, <<3, TRUE>>, <<3, FALSE>> >>
        [] Sig = 2 -> << <<1, TRUE>>, <<1, FALSE>>, <<2, TRUE>>, <<2, FALSE>>, <<3, TRUE>>, <<3, FALSE>>, <<4, TRUE>>, <<4, FALSE>> >>
        [] OTHER -> <<>>
Ps == IF Sig = 3 THEN << <<1, TRUE, "MQ">>, <<1, FALSE, "MQ">>, <<2, TRUE, "MQ">>, <<2, FALSE, "MQ">>, <<3, TRUE, "DB">>, <<2, FALSE, "DB">> >> ELSE <<>>

MCInit == /\ comps = [i \in 1..Len(Cs) |-> [par |-> Cs[i][1], comp |-> Cs[i][2]]]
          /\ ap = [i \in 1..Len(As) |-> [c |-> As[i][1], in |-> As[i][2], w |-> 1, ty |-> "f"]]
          /\ pp = [i \in 1..Len(Ps) |-> [c |-> Ps[i][1], in |-> Ps[i][2], pr |-> Ps[i][3], ty |-> "i"]]
          /\ ae = <<>> /\ pe = <<>> /\ bad = FALSE /\ phase = "reg"
          /\ adrv = Empty /\ pdrv = Empty /\ deps = Empty /\ off = Empty
          /\ tin = <<>> /\ done = {} /\ val = Empty /\ bc = 0 /\ fail = FALSE
          /\ q = Empty /\ fr = Empty /\ bk = Empty /\ chg = Empty
          /\ chosen = {} /\ pchosen = {}
          /\ pool = {<<L, s, r>> \in (1..Len(Cs)) \X (1..Len(As)) \X (1..Len(As)) : Cs[L][2] /\ Sends(ap, L, s) /\ Receives(ap, L, r)}

PPool == {<<L, s, r>> \in (1..Len(Cs)) \X (1..Len(Ps)) \X (1..Len(Ps)) : Cs[L][2] /\ Sends(pp, L, s) /\ Receives(pp, L, r)}
\* edges are added in a fixed order so that every set is reached once
Rank(e) == e[1] * 100 + e[2] * 10 + e[3]
Above(S, e) == \A x \in S : Rank(x) < Rank(e)
AddA == \E e \in pool : Above(chosen, e) /\ Cardinality(chosen) < MaxE /\ phase = "reg"
          /\ ConnectAudio(e[1], e[2], <<0>>, e[3], <<0>>, "") /\ chosen' = chosen \cup {e} /\ UNCHANGED <<pool, pchosen>>
AddP == \E e \in PPool : Above(pchosen, e) /\ phase = "reg"
          /\ ConnectParam(e[1], e[2], e[3], "") /\ pchosen' = pchosen \cup {e} /\ UNCHANGED <<pool, chosen>>
Keep == UNCHANGED <<pool, chosen, pchosen>>
NTop(in) == Cardinality({p \in DOMAIN pp : pp[p].c = 1 /\ pp[p].in = in})
DoBuild == phase = "reg" /\ Keep /\ \E r \in {"", "ex"} :
             Build(r, [p \in TopAudio(TRUE) \cup TopAudio(FALSE) |-> 0], SumW(TopAudio(TRUE)), SumW(TopAudio(FALSE)), NTop(TRUE), NTop(FALSE))
DoBegin == bc < Blocks /\ Begin([i \in 1..SumW(TopAudio(TRUE)) |-> <<"t", bc>>]) /\ Keep
\* an atom reads what is there at that time
Ready(a) == a \notin done /\ deps[a] \subseteq done
InsOf(a) == LET S == {p \in DOMAIN ap : ap[p].c = a /\ ap[p].in} IN
            IF S = {} THEN <<>> ELSE LET p == CHOOSE p \in S : TRUE IN << <<p, <<Signal(adrv[<<p, 0>>])>> >> >>
OutOf(a) == {p \in DOMAIN ap : ap[p].c = a /\ ~ap[p].in}
OutsOf(a) == IF OutOf(a) = {} THEN <<>> ELSE LET p == CHOOSE p \in OutOf(a) : TRUE IN << <<p, << <<a, InsOf(a)>> >> >> >>
PIns(a) == {p \in DOMAIN pp : pp[p].c = a /\ pp[p].in}
POuts(a) == {p \in DOMAIN pp : pp[p].c = a /\ ~pp[p].in}
RecvSeq(a) == IF PIns(a) = {} THEN <<>> ELSE LET p == CHOOSE p \in PIns(a) : TRUE
                                               s == pdrv[p] IN
   << <<p, IF pp[p].pr = "MQ" THEN <<Len(q[s])>> \o q[s] ELSE <<IF chg[p] THEN 1 ELSE 0, bk[s]>> >> >>
RECURSIVE SetSeq(_)
SetSeq(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE x \in S : \A y \in S : x <= y IN <<x>> \o SetSeq(S \ {x})
SendSeq(a) == LET o == SetSeq(POuts(a)) IN
   [i \in 1..Len(o) |-> IF pp[o[i]].pr = "MQ" THEN <<o[i], "enq", bc>> ELSE <<o[i], "swap", 1>>]
DoExec == \E a \in Atoms : phase = "block" /\ Ready(a) /\ ~fail /\ \E t \in BOOLEAN :
           Exec(a, InsOf(a), TRUE, OutsOf(a), RecvSeq(a), -1, SendSeq(a), "", bc, bc, 1, TRUE, t) /\ Keep
DoEnd == phase = "block" /\ (fail \/ done = Atoms) /\ Keep /\
         EndBlock(IF fail THEN "ex" ELSE "", [i \in 1..SumW(TopAudio(FALSE)) |-> LET p == CHOOSE p \in TopAudio(FALSE) : TRUE IN Signal(adrv[<<p, 0>>])],
                  TRUE, TRUE, IF fail THEN bc ELSE bc + 1)
MCNext == AddA \/ AddP \/ DoBuild \/ DoBegin \/ DoExec \/ DoEnd
MCSpec == MCInit /\ [][MCNext]_<<vars, pool, chosen, pchosen>>

\* the meaning of a flow, by recursion over its connections
RECURSIVE Den(_)
Den(d) == IF d[1] = "top" THEN <<"t", bc>>
          ELSE LET a == ap[d[2]].c
                   S == {p \in DOMAIN ap : ap[p].c = a /\ ap[p].in} IN
               <<a, IF S = {} THEN <<>> ELSE LET p == CHOOSE p \in S : TRUE IN << <<p, <<Den(adrv[<<p, 0>>])>> >> >> >>
\* whatever the execution order, every component has seen its denoted inputs
Denoted == phase = "block" => \A p \in DOMAIN val : val[p][1] = Den(<<"out", p, 0>>)
NeverStuck == phase = "block" /\ ~fail /\ done # Atoms => \E a \in Atoms : Ready(a)
AcceptedIsConsistent == phase \in {"idle", "block"} => Consistent /\ Peel(deps, Atoms)
NoSkip == phase # "skip"
\* message queues: nothing stays behind when its receiver ran
OneSenderPerReceiver == phase = "idle" => \A p \in DOMAIN pdrv : pdrv[p] # 0

EmitA == phase = "reg" => PrintT("@@" \o ToJson(<<Sig, ae, pe>>))
QBound == \A s \in DOMAIN q : Len(q[s]) <= 2
GSig == atoi(IOEnv.SIG)
OnlyReg == phase = "reg"
GNext == AddA \/ AddP
GSpec == MCInit /\ [][GNext]_<<vars, pool, chosen, pchosen>>
=============================================================================
