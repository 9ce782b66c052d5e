------------------------------- MODULE Flow -------------------------------
(* Hierarchical signal flows: components, ports and connections are registered, the flow is built (accepted
   or rejected), and then processed block by block. Component 1 is the top level.
   MODE selects which guarantee is demanded of an observed step ("P01", "P02", "P03", "P07"); with "ALL" every one. *)
EXTENDS Integers, Sequences, FiniteSets

CONSTANT MODE
On(p) == MODE = p \/ MODE = "ALL"
Demand(p, c) == On(p) => c

VARIABLES comps,   \* component -> [par, comp]
          ap,      \* audio port -> [c, in, w, ty]
          pp,      \* parameter port -> [c, in, pr, ty]
          ae,      \* audio edges <<level, send port, send channel, receive port, receive channel>>, a multiset
          pe,      \* parameter edges <<level, send port, receive port>>
          bad,     \* a connection that cannot be represented as edges was registered
          phase,   \* "reg", "idle" (built, between blocks), "block", "skip"
          adrv,    \* <<receive port, channel>> -> its source: <<"top"|"out", port, channel>>
          pdrv,    \* parameter receive port -> its sender
          deps,    \* atom -> atoms that feed it
          off,     \* top-level audio port -> first external channel
          tin,     \* external input of the current block
          done,    \* atoms executed in the current block
          val,     \* atom output port -> channels written in the current block
          bc,      \* completed blocks
          fail,    \* a component failed in this block
          q, fr, bk, chg  \* parameter connections, per sender (chg: per receiver)

gvars == <<comps, ap, pp, ae, pe, bad>>
bvars == <<adrv, pdrv, deps, off>>
rvars == <<tin, done, val, bc, fail>>
pvars == <<q, fr, bk, chg>>
vars == <<gvars, phase, bvars, rvars, pvars>>

Ext(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Empty == [x \in {} |-> 0]
Unknown == -999
Fits(actual, spec) == spec = Unknown \/ actual = spec

Blank == /\ comps' = Empty /\ ap' = Empty /\ pp' = Empty /\ ae' = <<>> /\ pe' = <<>> /\ bad' = FALSE /\ phase' = "reg"
         /\ adrv' = Empty /\ pdrv' = Empty /\ deps' = Empty /\ off' = Empty
         /\ tin' = <<>> /\ done' = {} /\ val' = Empty /\ bc' = 0 /\ fail' = FALSE
         /\ q' = Empty /\ fr' = Empty /\ bk' = Empty /\ chg' = Empty
FlowInit == /\ comps = Empty /\ ap = Empty /\ pp = Empty /\ ae = <<>> /\ pe = <<>> /\ bad = FALSE /\ phase = "reg"
            /\ adrv = Empty /\ pdrv = Empty /\ deps = Empty /\ off = Empty
            /\ tin = <<>> /\ done = {} /\ val = Empty /\ bc = 0 /\ fail = FALSE
            /\ q = Empty /\ fr = Empty /\ bk = Empty /\ chg = Empty

\* ------------------------------------------------------------------ registration
AddComp(id, par, c) == /\ comps' = Ext(comps, id, [par |-> par, comp |-> c])
                       /\ UNCHANGED <<ap, pp, ae, pe, bad, phase, bvars, rvars, pvars>>
AddAudioPort(id, c, in, w, ty) == /\ ap' = Ext(ap, id, [c |-> c, in |-> in, w |-> w, ty |-> ty])
                                  /\ UNCHANGED <<comps, pp, ae, pe, bad, phase, bvars, rvars, pvars>>
AddParamPort(id, c, in, pr, ty) == /\ pp' = Ext(pp, id, [c |-> c, in |-> in, pr |-> pr, ty |-> ty])
                                   /\ UNCHANGED <<comps, ap, ae, pe, bad, phase, bvars, rvars, pvars>>

\* seen from composite L: its inputs and its children's outputs send, its outputs and its children's inputs receive
Local(tab, L, p) == p \in DOMAIN tab /\ (tab[p].c = L \/ comps[tab[p].c].par = L)
Sends(tab, L, p) == p \in DOMAIN tab /\ IF tab[p].c = L THEN tab[p].in ELSE comps[tab[p].c].par = L /\ ~tab[p].in
Receives(tab, L, p) == p \in DOMAIN tab /\ IF tab[p].c = L THEN ~tab[p].in ELSE comps[tab[p].c].par = L /\ tab[p].in

AudioLegal(L, sp, sc, rp, rc) ==
  /\ Sends(ap, L, sp) /\ Receives(ap, L, rp) /\ Len(sc) = Len(rc) /\ ap[sp].ty = ap[rp].ty
  /\ \A i \in 1..Len(sc) : sc[i] \in 0..(ap[sp].w - 1) /\ rc[i] \in 0..(ap[rp].w - 1)
\* Registering may refuse a connection that is wrong in itself; what is not refused counts as registered.
ConnectAudio(L, sp, sc, rp, rc, r) ==
  /\ Demand("P03", r \in {"", "ex"} /\ (r = "ex" => ~AudioLegal(L, sp, sc, rp, rc)))
  /\ IF r # "" THEN UNCHANGED <<ae, bad>>
     ELSE IF Len(sc) # Len(rc) \/ sp = 0 \/ rp = 0 THEN bad' = TRUE /\ UNCHANGED ae
     ELSE ae' = ae \o [i \in 1..Len(sc) |-> <<L, sp, sc[i], rp, rc[i]>>] /\ UNCHANGED bad
  /\ UNCHANGED <<comps, ap, pp, pe, phase, bvars, rvars, pvars>>
ConnectParam(L, s, d, r) ==
  /\ Demand("P03", r \in {"", "ex"} /\ (r = "ex" => ~(Sends(pp, L, s) /\ Receives(pp, L, d))))
  /\ IF r # "" THEN UNCHANGED <<pe, bad>>
     ELSE IF s = 0 \/ d = 0 THEN bad' = TRUE /\ UNCHANGED pe
     ELSE pe' = Append(pe, <<L, s, d>>) /\ UNCHANGED bad
  /\ UNCHANGED <<comps, ap, pp, ae, phase, bvars, rvars, pvars>>

\* ------------------------------------------------------------------ acceptance
Composites == {c \in DOMAIN comps : comps[c].comp}
Atoms == DOMAIN comps \ Composites
TopIsAtom == 1 \in Atoms
Num(P(_)) == Cardinality({i \in 1..Len(ae) : P(ae[i])})
AudioEdgeOk(e) == /\ Sends(ap, e[1], e[2]) /\ Receives(ap, e[1], e[4])
                  /\ e[3] \in 0..(ap[e[2]].w - 1) /\ e[5] \in 0..(ap[e[4]].w - 1)
                  /\ ap[e[2]].ty = ap[e[4]].ty
AudioOk == /\ \A i \in 1..Len(ae) : AudioEdgeOk(ae[i])
           /\ \A L \in Composites, p \in DOMAIN ap : \A c \in 0..(ap[p].w - 1) :
                /\ Receives(ap, L, p) => Cardinality({i \in 1..Len(ae) : ae[i][1] = L /\ ae[i][4] = p /\ ae[i][5] = c}) = 1
                /\ Sends(ap, L, p) => \E i \in 1..Len(ae) : ae[i][1] = L /\ ae[i][2] = p /\ ae[i][3] = c
ParamEdgeOk(e) == /\ Sends(pp, e[1], e[2]) /\ Receives(pp, e[1], e[3])
                  /\ pp[e[2]].pr = pp[e[3]].pr /\ pp[e[2]].ty = pp[e[3]].ty
ParamOk == /\ \A i \in 1..Len(pe) : ParamEdgeOk(pe[i])
           /\ \A L \in Composites, p \in DOMAIN pp :
                /\ Receives(pp, L, p) => Cardinality({i \in 1..Len(pe) : pe[i][1] = L /\ pe[i][3] = p}) = 1
                /\ Sends(pp, L, p) => LET n == Cardinality({i \in 1..Len(pe) : pe[i][1] = L /\ pe[i][2] = p})
                                      IN IF pp[p].pr = "MQ" THEN n = 1 ELSE n >= 1
Consistent == ~bad /\ AudioOk /\ ParamOk

\* the source of every receiving channel / parameter port, following composite ports (only used if Consistent)
InEdge == [k \in {<<ae[i][4], ae[i][5]>> : i \in 1..Len(ae)} |-> ae[CHOOSE i \in 1..Len(ae) : <<ae[i][4], ae[i][5]>> = k]]
RECURSIVE Res(_, _, _, _)
Res(ie, p, c, n) == LET e == ie[<<p, c>>]
                        s == e[2] IN
  IF n = 0 THEN <<"loop", 0, 0>>
  ELSE IF ap[s].c \in Atoms THEN <<"out", s, e[3]>>
  ELSE IF ap[s].c = 1 /\ ap[s].in THEN <<"top", s, e[3]>>
  ELSE Res(ie, s, e[3], n - 1)
PInEdge == [k \in {pe[i][3] : i \in 1..Len(pe)} |-> pe[CHOOSE i \in 1..Len(pe) : pe[i][3] = k][2]]
RECURSIVE PRes(_, _, _)
PRes(ie, p, n) == LET s == ie[p] IN
  IF n = 0 THEN 0
  ELSE IF pp[s].c \in Atoms \/ (pp[s].c = 1 /\ pp[s].in) THEN s
  ELSE PRes(ie, s, n - 1)
AllAudioRecv == {k \in (DOMAIN ap) \X (0..8) : k[2] < ap[k[1]].w /\ \E L \in Composites : Receives(ap, L, k[1])}
AllParamRecv == {p \in DOMAIN pp : \E L \in Composites : Receives(pp, L, p)}
ARes == LET ie == InEdge IN [k \in AllAudioRecv |-> Res(ie, k[1], k[2], Len(ae) + 1)]
PAll == LET ie == PInEdge IN [p \in AllParamRecv |-> PRes(ie, p, Len(pe) + 1)]
\* an atom, or the outside world
Concrete(c) == c \in Atoms \/ c = 1
AtomDeps(ar, pr) ==
  [a \in Atoms |-> {ap[ar[k][2]].c : k \in {k \in DOMAIN ar : ap[k[1]].c = a /\ ar[k][1] = "out"}}
             \cup {pp[pr[p]].c : p \in {p \in DOMAIN pr : pp[p].c = a /\ pr[p] # 0 /\ pp[pr[p]].c \in Atoms}}]
RECURSIVE Peel(_, _)
Peel(d, S) == LET r == {a \in S : d[a] \cap S = {}} IN IF S = {} THEN TRUE ELSE IF r = {} THEN FALSE ELSE Peel(d, S \ r)
AnyLoop(ar, pr) == (\E k \in DOMAIN ar : ar[k][1] = "loop") \/ (\E p \in DOMAIN pr : pr[p] = 0)
FedByLoop(ar, pr) == (\E k \in DOMAIN ar : Concrete(ap[k[1]].c) /\ ar[k][1] = "loop") \/ (\E p \in DOMAIN pr : Concrete(pp[p].c) /\ pr[p] = 0)

TopAudio(in) == {p \in DOMAIN ap : ap[p].c = 1 /\ ap[p].in = in}
RECURSIVE SumW(_)
SumW(S) == IF S = {} THEN 0 ELSE LET p == CHOOSE p \in S : TRUE IN ap[p].w + SumW(S \ {p})
\* the external channels of all ports of one direction partition 0..n-1
Partition(o, in, n) ==
  /\ SumW(TopAudio(in)) = n
  /\ \A p \in TopAudio(in) : o[p] >= 0 /\ o[p] + ap[p].w <= n
  /\ \A p, r \in TopAudio(in) : p # r /\ ap[p].w > 0 /\ ap[r].w > 0 => o[p] + ap[p].w <= o[r] \/ o[r] + ap[r].w <= o[p]

StartRun(ar, pr, d, o) ==
  /\ phase' = "idle" /\ adrv' = ar /\ pdrv' = pr /\ deps' = d /\ off' = o
  /\ tin' = <<>> /\ done' = {} /\ val' = Empty /\ bc' = 0 /\ fail' = FALSE
  /\ LET S == {pr[p] : p \in DOMAIN pr} IN
       q' = [s \in S |-> <<>>] /\ fr' = [s \in S |-> Unknown] /\ bk' = [s \in S |-> Unknown]
  /\ chg' = [p \in DOMAIN pr |-> FALSE]

Build(r, o, nc, np, nr, ns) ==
  /\ UNCHANGED gvars
  /\ IF TopIsAtom
     THEN /\ Demand("P03", r = "")
          /\ IF r # "" THEN phase' = "reg" /\ UNCHANGED <<bvars, rvars, pvars>>
             ELSE LET ks(in) == {k \in (DOMAIN ap) \X (0..8) : ap[k[1]].in = in /\ k[2] < ap[k[1]].w} IN
                  StartRun([k \in ks(TRUE) \cup ks(FALSE) |-> <<IF ap[k[1]].in THEN "top" ELSE "out", k[1], k[2]>>],
                           [p \in DOMAIN pp |-> p], [a \in {1} |-> {}], o)
     ELSE LET cons == Consistent IN
       IF ~cons
       THEN /\ Demand("P03", r = "ex")
            /\ phase' = IF r = "" THEN "skip" ELSE "reg"
            /\ UNCHANGED <<bvars, rvars, pvars>>
       ELSE LET ar == ARes
                pr == PAll
                d == AtomDeps(ar, pr)
                cyc == FedByLoop(ar, pr) \/ ~Peel(d, Atoms)
            IN /\ Demand("P02", cyc => r = "ex")
               /\ Demand("P03", ~cyc /\ ~AnyLoop(ar, pr) => r = "")
               /\ IF r = "" /\ ~cyc
                  THEN StartRun(ar, pr, d, o)
                  ELSE phase' = (IF r = "" THEN "skip" ELSE "reg") /\ UNCHANGED <<bvars, rvars, pvars>>
  /\ phase' = "idle" => /\ Demand("P01", Partition(o, TRUE, nc) /\ Partition(o, FALSE, np))
                        /\ Demand("P07", nr = Cardinality({p \in DOMAIN pp : pp[p].c = 1 /\ pp[p].in})
                                         /\ ns = Cardinality({p \in DOMAIN pp : pp[p].c = 1 /\ ~pp[p].in}))
Unbuild == /\ phase' = IF phase = "skip" THEN "skip" ELSE "reg"
           /\ UNCHANGED <<gvars, bvars, rvars, pvars>>

\* ------------------------------------------------------------------ processing
Begin(in) == /\ phase = "idle" /\ phase' = "block" /\ tin' = in /\ done' = {} /\ val' = Empty /\ fail' = FALSE
             /\ UNCHANGED <<gvars, bvars, bc, pvars>>
\* the signal a receiving channel has to carry in this block; <<>> if its source has not been computed yet
Signal(d) == IF d[1] = "top" THEN tin[off[d[2]] + d[3] + 1]
             ELSE IF d[2] \in DOMAIN val THEN val[d[2]][d[3] + 1] ELSE <<>>
InputsRight(ins) == \A i \in 1..Len(ins) : LET p == ins[i][1] IN
                      \A c \in 0..(ap[p].w - 1) : ins[i][2][c + 1] = Signal(adrv[<<p, c>>])
Recv(p, got, take, st) ==
  LET s == pdrv[p]
      pr == pp[p].pr IN
  IF pr = "MQ" THEN LET n == IF take < 0 \/ take > Len(st.q[s]) THEN Len(st.q[s]) ELSE take IN
       [st EXCEPT !.ok = @ /\ got = <<Len(st.q[s])>> \o SubSeq(st.q[s], 1, n), !.q[s] = SubSeq(@, n + 1, Len(@))]
  ELSE IF pr = "DB" THEN [st EXCEPT !.ok = @ /\ Len(got) = 2 /\ got[1] = (IF st.chg[p] THEN 1 ELSE 0) /\ Fits(got[2], st.bk[s]), !.chg[p] = FALSE]
  ELSE [st EXCEPT !.ok = @ /\ Len(got) = 1 /\ Fits(got[1], st.fr[s])]
Send(s, op, v, st) ==
  IF op = "enq" THEN [st EXCEPT !.q[s] = Append(@, v)]
  ELSE IF op = "set" THEN [st EXCEPT !.fr[s] = v]
  ELSE [st EXCEPT !.bk[s] = st.fr[s], !.fr[s] = IF v # 0 THEN @ ELSE Unknown,
                  !.chg = [p \in DOMAIN @ |-> @[p] \/ pdrv[p] = s]]
St == [ok |-> TRUE, q |-> q, fr |-> fr, bk |-> bk, chg |-> chg]
RECURSIVE RecvAll(_, _, _)
RecvAll(rs, take, st) == IF rs = <<>> THEN st ELSE RecvAll(Tail(rs), take, Recv(Head(rs)[1], Head(rs)[2], take, st))
RECURSIVE SendAll(_, _)
SendAll(ss, st) == IF ss = <<>> THEN st ELSE SendAll(Tail(ss), Send(Head(ss)[1], Head(ss)[2], Head(ss)[3], st))

Exec(a, ins, same, outs, rc, take, sn, r, b, smp, per, lk, thr) ==
  /\ phase = "block"
  /\ Demand("P01", InputsRight(ins) /\ same)
  /\ Demand("P02", a \notin done /\ deps[a] \subseteq done)
  /\ done' = done \cup {a}
  /\ val' = [p \in DOMAIN val \cup {outs[i][1] : i \in 1..Len(outs)} |->
               IF \E i \in 1..Len(outs) : outs[i][1] = p THEN outs[CHOOSE i \in 1..Len(outs) : outs[i][1] = p][2] ELSE val[p]]
  /\ fail' = (fail \/ thr)
  /\ IF On("P07")
     THEN /\ r = "" /\ lk /\ b = bc /\ smp = bc * per
          /\ {rc[i][1] : i \in 1..Len(rc)} = {p \in DOMAIN pp : pp[p].c = a /\ pp[p].in}
          /\ LET st1 == RecvAll(rc, take, St)
                 st2 == SendAll(sn, st1) IN
               st1.ok /\ q' = st2.q /\ fr' = st2.fr /\ bk' = st2.bk /\ chg' = st2.chg
     ELSE UNCHANGED pvars
  /\ UNCHANGED <<gvars, phase, bvars, tin, bc>>

EndBlock(r, out, clean, lk, b) ==
  /\ phase = "block" /\ phase' = "idle"
  /\ r = IF fail THEN "ex" ELSE ""
  /\ Demand("P01", ~fail => clean /\ \A p \in TopAudio(FALSE) : \A c \in 0..(ap[p].w - 1) : out[off[p] + c + 1] = Signal(adrv[<<p, c>>]))
  /\ Demand("P02", ~fail => done = Atoms)
  /\ bc' = IF fail THEN bc ELSE bc + 1
  /\ Demand("P07", lk /\ b = bc')
  /\ UNCHANGED <<gvars, bvars, tin, done, val, fail, pvars>>

\* external parameter exchange between blocks
ExtSend(p, op, v, r) ==
  /\ phase = "idle" /\ pp[p].c = 1 /\ pp[p].in
  /\ IF On("P07") THEN LET st == Send(p, op, v, St) IN r = "" /\ q' = st.q /\ fr' = st.fr /\ bk' = st.bk /\ chg' = st.chg
     ELSE UNCHANGED pvars
  /\ UNCHANGED <<gvars, phase, bvars, rvars>>
ExtRecv(p, take, got, r) ==
  /\ phase = "idle" /\ pp[p].c = 1 /\ ~pp[p].in
  /\ IF On("P07") THEN LET st == Recv(p, got, take, St) IN r = "" /\ st.ok /\ q' = st.q /\ fr' = st.fr /\ bk' = st.bk /\ chg' = st.chg
     ELSE UNCHANGED pvars
  /\ UNCHANGED <<gvars, phase, bvars, rvars>>
=============================================================================
