------------------------------- MODULE FlexMC -------------------------------
(* All sequences of call sizes: the stream handed out is the delayed stream of the flow's blocks, whatever the
   partition.  The flow is the identity here (with the block number attached), so the result is a function of the input. *)
EXTENDS Flex, TLC
CONSTANTS P, N, MaxIn, MaxCall
VARIABLES got, sent, blk
mc == <<fvars, got, sent, blk>>
MCInit == /\ per = P /\ nin = N /\ nout = N /\ left = -1 /\ level = 0
          /\ pend = [c \in 1..N |-> <<>>] /\ outq = [c \in 1..N |-> Zeros(P)]
          /\ got = [c \in 1..N |-> <<>>] /\ sent = 0 /\ blk = 0
X(n) == [c \in 1..N |-> [k \in 1..n |-> (sent + k) * 10 + c]]
MCBegin == \E n \in 0..MaxCall : sent + n <= MaxIn /\ Begin(n, X(n)) /\ sent' = sent + n /\ UNCHANGED <<got, blk>>
MCFlow == LET x == [c \in 1..N |-> SubSeq(pend[c], 1, per)] IN
          level >= per /\ RunFlow(x, [c \in 1..N |-> [k \in 1..per |-> x[c][k] * 100 + blk]]) /\ blk' = blk + 1 /\ UNCHANGED <<got, sent>>
MCEnd == LET y == [c \in 1..N |-> SubSeq(outq[c], 1, left)] IN
         End(y) /\ got' = [c \in 1..N |-> got[c] \o y[c]] /\ UNCHANGED <<sent, blk>>
MCNext == MCBegin \/ MCFlow \/ MCEnd
MCSpec == MCInit /\ [][MCNext]_mc /\ WF_mc(MCFlow \/ MCEnd)
\* denotation of the k-th output sample
Den(c, k) == IF k <= P THEN 0 ELSE ((k - P) * 10 + c) * 100 + ((k - P - 1) \div P)
Stream == \A c \in 1..N : \A k \in 1..Len(got[c]) : got[c][k] = Den(c, k)
Complete == left = -1 => \A c \in 1..N : Len(got[c]) = sent
CallsReturn == (left >= 0) ~> (left = -1)
=============================================================================
