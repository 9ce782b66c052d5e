------------------------------ MODULE CommMC ------------------------------
(* Bounded exhaustive model and behaviour generator of Comm. hist is the operation history; with
   Emit the complete histories are printed and replayed against the implementation. *)
EXTENDS Comm, TLC, Json, IOUtils
CONSTANTS MaxQ, Vals, MaxP

VARIABLES hist, sent, got   \* sent/got: history of what was enqueued / taken per protocol (MQ)
mvars == <<vars, hist, sent, got>>

Kinds == {"MQ", "DB", "SD"}
MCInit == CommInit /\ hist = <<>> /\ sent = <<>> /\ got = <<>>

Log(t) == hist' = Append(hist, t)
Keep == UNCHANGED <<sent, got>>
Vs == IF Vals = 0 THEN {Len(hist) + 1} ELSE 1..Vals

Ops ==
  \/ \E p \in 1..np, x \in 1..(ni+1), r \in {"", "ex"} : ConnectIn(p, x, r) /\ Log(<<"cin", p, x>>) /\ Keep
  \/ \E p \in 1..np, x \in 1..(no+1), r \in {"", "ex"} : ConnectOut(p, x, r) /\ Log(<<"cout", p, x>>) /\ Keep
  \/ \E p \in 1..np, x \in 1..(ni+1), r \in BOOLEAN : DisconnectIn(p, x, r) /\ Log(<<"din", p, x>>) /\ Keep
  \/ \E p \in 1..np, x \in 1..(no+1), r \in BOOLEAN : DisconnectOut(p, x, r) /\ Log(<<"dout", p, x>>) /\ Keep
  \/ \E x \in 1..no : \E v \in Vs :
       Enqueue(x, v) /\ Len(que[outOf[x]]) < MaxQ /\ Log(<<"enq", x, v>>)
       /\ sent' = [sent EXCEPT ![outOf[x]] = Append(@, v)] /\ UNCHANGED got
  \/ \E x \in 1..ni : kind = "MQ" /\ inOf[x] # 0 /\ que[inOf[x]] # <<>> /\ Pop(x, "") /\ Log(<<"pop", x>>)
       /\ got' = [got EXCEPT ![inOf[x]] = Append(@, Head(que[inOf[x]]))] /\ UNCHANGED sent
  \/ \E x \in 1..ni : Pop(x, "ex") /\ Log(<<"pop", x>>) /\ Keep
  \/ \E x \in 1..ni : Clear(x) /\ Log(<<"clear", x>>)
       /\ got' = [got EXCEPT ![inOf[x]] = @ \o que[inOf[x]]] /\ UNCHANGED sent
  \/ \E x \in 1..ni : kind = "MQ" /\ inOf[x] # 0 /\ UNCHANGED vars /\ Log(<<"front", x>>) /\ Keep
  \/ \E x \in 1..no : \E v \in Vs : Set(x, v) /\ Log(<<"set", x, v>>) /\ Keep
  \/ \E x \in 1..no, c \in BOOLEAN : Swap(x, c) /\ Log(<<"swap", x, IF c THEN 1 ELSE 0>>) /\ Keep
  \/ \E x \in 1..ni : Reset(x) /\ Log(<<"reset", x>>) /\ Keep

Create == \/ \E k \in Kinds, p \in 1..MaxP, i \in 1..2, o \in 1..2 :
              Make(k, p, i, o) /\ Log(<<"mk", k, p, i, o>>) /\ sent' = [y \in 1..p |-> <<>>] /\ got' = [y \in 1..p |-> <<>>]

MCNext == IF kind = "none" THEN Create ELSE Ops
MCSpec == MCInit /\ [][MCNext]_mvars
View == <<vars, sent, got>>

\* FIFO, exactly once: what was taken or dropped followed by what is queued is what was sent
Fifo == kind = "MQ" => \A p \in 1..np : got[p] \o que[p] = sent[p]
\* receivers only see published values
Bounded == \A p \in DOMAIN sent : Len(sent[p]) <= MaxQ + 1
\* a receiver is never told about a change that it was not attached for (checked as an action property)
NotifyOnlyAttached == [][\A x \in DOMAIN changed : x \in DOMAIN changed' /\ changed'[x] /\ ~changed[x] => inOf[x] # 0]_mvars

Depth == atoi(IOEnv.DEPTH)
Emit == Len(hist) = Depth => PrintT("@@" \o ToJson(hist))
Short == Len(hist) < Depth
=============================================================================
