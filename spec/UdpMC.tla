------------------------------- MODULE UdpMC -------------------------------
(* The two components in asynchronous mode with their network threads, down to the lock and the outstanding socket operation:
   process() moves messages under the lock and starts a send operation if none is outstanding; the completion handler of the network
   thread removes the sent message under the lock and starts the next one. Checked against the abstract Udp. *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS MaxMsg, MaxAgain, MaxErr, Big   \* Big: numbers of messages that do not fit into a datagram
VARIABLES n,       \* messages handed over so far (the k-th message is k)
          inq, dq, \* sender: parameter queue, internal queue
          op,      \* outstanding send operation: "none", "wait" (socket not ready), "ok" / "err" (completed, handler not run)
          slock, spc, hpc, \* lock of the sender ("", "p", "h"); where process() / the handler is
          net, rop, rbuf, rq, rlock, rpc, \* receiver: socket, outstanding operation, buffer, internal queue
          out, again, errs
vars == <<n, inq, dq, op, slock, spc, hpc, net, rop, rbuf, rq, rlock, rpc, out, again, errs>>
FitsMC(m) == m \notin Big
A == INSTANCE Udp WITH Fits <- FitsMC, smode <- "async", rmode <- "async", chain <- TRUE, inq <- inq, wire <- <<>>, net <- net,
                       buf <- SelectSeq(IF op = "ok" THEN Tail(dq) ELSE dq, FitsMC), took <- rq \o rbuf, settled <- 0
sv == <<inq, dq, op, slock, spc, hpc>>
rv == <<rop, rbuf, rq, rlock, rpc, out>>
Init == /\ n = 0 /\ inq = <<>> /\ dq = <<>> /\ op = "none" /\ slock = "" /\ spc = "idle" /\ hpc = "idle" /\ net = <<>>
        /\ rop = "wait" /\ rbuf = <<>> /\ rq = <<>> /\ rlock = "" /\ rpc = "idle" /\ out = <<>> /\ again = 0 /\ errs = 0
\* a try to send the first message of the internal queue
Attempt == \/ FitsMC(Head(dq)) /\ op' = "ok" /\ net' = Append(net, Head(dq)) /\ UNCHANGED again
           \/ ~FitsMC(Head(dq)) /\ op' = "err" /\ UNCHANGED <<net, again>>
           \/ again < MaxAgain /\ op' = "wait" /\ again' = again + 1 /\ UNCHANGED net
Push == n < MaxMsg /\ n' = n + 1 /\ inq' = Append(inq, n + 1) /\ spc = "idle" /\ UNCHANGED <<dq, op, slock, spc, hpc, net, rv, again, errs>>
\* process() of the sender
PLock == spc = "idle" /\ slock = "" /\ slock' = "p" /\ spc' = "in" /\ UNCHANGED <<n, inq, dq, op, hpc, net, rv, again, errs>>
PMove == spc = "in" /\ spc' = (IF dq = <<>> /\ inq # <<>> THEN "start" ELSE "out") /\ dq' = dq \o inq /\ inq' = <<>> /\ UNCHANGED <<n, op, slock, hpc, net, rv, again, errs>>
PStart == spc = "start" /\ spc' = "out" /\ Attempt /\ UNCHANGED <<n, inq, dq, slock, hpc, rv, errs>>
PUnlock == spc = "out" /\ spc' = "idle" /\ slock' = "" /\ UNCHANGED <<n, inq, dq, op, hpc, net, rv, again, errs>>
\* network thread of the sender
SReady == op = "wait" /\ hpc = "idle" /\ Attempt /\ UNCHANGED <<n, inq, dq, slock, spc, hpc, rv, errs>>
HLock == op \in {"ok", "err"} /\ hpc = "idle" /\ slock = "" /\ slock' = "h" /\ hpc' = "pop" /\ UNCHANGED <<n, inq, dq, op, spc, net, rv, again, errs>>
HPop == hpc = "pop" /\ dq' = Tail(dq) /\ op' = "none" /\ hpc' = (IF Len(dq) > 1 THEN "start" ELSE "out") /\ UNCHANGED <<n, inq, slock, spc, net, rv, again, errs>>
HStart == hpc = "start" /\ hpc' = "out" /\ Attempt /\ UNCHANGED <<n, inq, dq, slock, spc, rv, errs>>
HUnlock == hpc = "out" /\ hpc' = "idle" /\ slock' = "" /\ UNCHANGED <<n, inq, dq, op, spc, net, rv, again, errs>>
\* network thread of the receiver
RTake == rop = "wait" /\ net # <<>> /\ rop' = "ok" /\ rbuf' = <<Head(net)>> /\ net' = Tail(net) /\ UNCHANGED <<n, sv, rq, rlock, rpc, out, again, errs>>
RErr == rop = "wait" /\ errs < MaxErr /\ errs' = errs + 1 /\ UNCHANGED <<n, sv, net, rv, again>>  \* a failed operation is started again
RLock == rop = "ok" /\ rlock = "" /\ rlock' = "h" /\ rop' = "put" /\ UNCHANGED <<n, sv, net, rbuf, rq, rpc, out, again, errs>>
RPut == rop = "put" /\ rop' = "wait" /\ rq' = rq \o rbuf /\ rbuf' = <<>> /\ rlock' = "" /\ UNCHANGED <<n, sv, net, rpc, out, again, errs>>
\* process() of the receiver
QLock == rpc = "idle" /\ rlock = "" /\ rlock' = "p" /\ rpc' = "in" /\ UNCHANGED <<n, sv, net, rop, rbuf, rq, out, again, errs>>
QMove == rpc = "in" /\ rpc' = "idle" /\ rlock' = "" /\ out' = out \o rq /\ rq' = <<>> /\ UNCHANGED <<n, sv, net, rop, rbuf, again, errs>>
Net == SReady \/ HLock \/ HPop \/ HStart \/ HUnlock \/ RTake \/ RLock \/ RPut
Proc == PLock \/ PMove \/ PStart \/ PUnlock \/ QLock \/ QMove
Next == Push \/ Proc \/ Net \/ RErr
Spec == Init /\ [][Next]_vars
Fair == Spec /\ WF_vars(SReady) /\ SF_vars(HLock) /\ WF_vars(HPop) /\ WF_vars(HStart) /\ WF_vars(HUnlock) /\ WF_vars(RTake) /\ SF_vars(RLock) /\ WF_vars(RPut)
             /\ SF_vars(PLock) /\ WF_vars(PMove) /\ WF_vars(PStart) /\ WF_vars(PUnlock) /\ SF_vars(QLock) /\ WF_vars(QMove)
\* ------------------------------------------------------------ properties
Ids(k) == SelectSeq([j \in 1..k |-> j], FitsMC)
\* at every moment: delivered, then on the way, then waiting: exactly the sendable messages, each once and in order
ExactlyOnce == out \o rq \o rbuf \o net \o SelectSeq(IF op = "ok" THEN Tail(dq) ELSE dq, FitsMC) \o SelectSeq(inq, FitsMC) = Ids(n)
OneOutstanding == /\ (op # "none" => dq # <<>>) /\ (spc = "start" => op = "none") /\ (hpc = "start" => op = "none")
                  /\ (slock = "" => (dq # <<>>) = (op # "none"))
Exclusive == ~(spc \in {"in", "start", "out"} /\ hpc \in {"pop", "start", "out"})
Prefixes(s) == {SubSeq(s, 1, k) : k \in 0..Len(s)}
AbsNext ==
  \E s \in Prefixes(SelectSeq(IF op = "ok" THEN Tail(dq) ELSE dq, FitsMC)), g \in Prefixes(net) :
     \/ A!Push(n + 1, s, g)
     \/ A!SendAsync(s, g, "")
     \/ A!Step(s, g)
     \/ A!RecvAsync(s, g, rq)
Refines == [][AbsNext]_<<inq, SelectSeq(IF op = "ok" THEN Tail(dq) ELSE dq, FitsMC), net, rq \o rbuf>>
Delivered == (n = MaxMsg) ~> (out = Ids(MaxMsg))
==============================================================================
