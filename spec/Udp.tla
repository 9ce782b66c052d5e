--------------------------------- MODULE Udp ---------------------------------
(* UDP sender and receiver components with their network threads.
   A message is a record or tuple; Fits(m) says that it can be sent as one datagram.
   Sender:   push -> inq -> (process) -> buf -> (socket) -> net of the receiver, or the wire to somebody else
   Receiver: net -> (socket) -> took -> (process) -> output
   This module is the abstract view that recorded behaviours are checked against; UdpMC refines it to the two threads. *)
EXTENDS Integers, Sequences, TLC
CONSTANT Fits(_)
VARIABLES smode, rmode,  \* "none", "sync", "async"
          chain,         \* the sender sends to the receiver
          inq, buf,      \* messages handed to the sender: not yet taken / taken by process() and not sent
          wire,          \* datagrams sent to the sender's peer and not yet seen there
          net, took,     \* datagrams sent to the receiver, and taken from the socket but not yet published
          settled        \* the first ones of took that the next process() has to publish
uv == <<smode, rmode, chain, inq, buf, wire, net, took, settled>>
UInit == smode = "none" /\ rmode = "none" /\ chain = FALSE /\ inq = <<>> /\ buf = <<>> /\ wire = <<>> /\ net = <<>> /\ took = <<>> /\ settled = 0
IsPrefix(a, b) == Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a
Drop(s, k) == SubSeq(s, k + 1, Len(s))
\* the sendable messages of a queue, in order
Sendable(q) == SelectSeq(q, Fits)
\* s: datagrams that left the sender, g: datagrams taken from the receiver's socket, b: what the sender has to send
Traffic(b, s, g) ==
  /\ IsPrefix(s, b) /\ buf' = Drop(b, Len(s))
  /\ wire' = IF chain THEN wire ELSE wire \o s
  /\ LET n == IF chain THEN net \o s ELSE net IN IsPrefix(g, n) /\ net' = Drop(n, Len(g))
Push(m, s, g) == Traffic(buf, s, g) /\ inq' = Append(inq, m) /\ took' = took \o g /\ UNCHANGED <<smode, rmode, chain, settled>>
\* first message that cannot be sent, or one behind the end
FirstBad(q) == CHOOSE k \in 1..(Len(q) + 1) : (k = Len(q) + 1 \/ ~Fits(q[k])) /\ \A j \in 1..(k - 1) : Fits(q[j])
SendSync(s, g, r) ==
  LET k == FirstBad(inq) IN
  /\ smode = "sync" /\ r = (IF k > Len(inq) THEN "" ELSE "ex") /\ s = SubSeq(inq, 1, k - 1) /\ inq' = Drop(inq, k)
  /\ Traffic(s, s, g) /\ took' = took \o g /\ UNCHANGED <<smode, rmode, chain, settled>>
SendAsync(s, g, r) ==
  /\ smode = "async" /\ r = "" /\ inq' = <<>> /\ Traffic(buf \o Sendable(inq), s, g) /\ took' = took \o g /\ UNCHANGED <<smode, rmode, chain, settled>>
Publish(o, all, n) == IsPrefix(o, all) /\ Len(o) >= n /\ took' = Drop(all, Len(o)) /\ settled' = 0
\* dry: process() left no datagram in the socket
RecvSync(s, g, o, dry) == rmode = "sync" /\ dry /\ Traffic(buf, s, g) /\ Publish(o, took \o g, Len(took) + Len(g)) /\ UNCHANGED <<smode, rmode, chain, inq>>
RecvAsync(s, g, o) == rmode = "async" /\ Traffic(buf, s, g) /\ Publish(o, took \o g, settled) /\ UNCHANGED <<smode, rmode, chain, inq>>
Step(s, g) == Traffic(buf, s, g) /\ took' = took \o g /\ UNCHANGED <<smode, rmode, chain, inq, settled>>
\* nothing is left to do for the network threads
Idle(s, g) == /\ Traffic(buf, s, g) /\ took' = took \o g /\ buf' = <<>> /\ (rmode = "async" => net' = <<>>)
              /\ settled' = Len(took') /\ UNCHANGED <<smode, rmode, chain, inq>>
\* a datagram from somebody else arrives at some place among those that the sender's thread sends meanwhile
Arrive(m, s, g) == /\ IsPrefix(s, buf) /\ buf' = Drop(buf, Len(s)) /\ wire' = IF chain THEN wire ELSE wire \o s
                   /\ \E k \in (IF chain THEN 0..Len(s) ELSE {0}) :
                        LET n == IF chain THEN net \o SubSeq(s, 1, k) \o <<m>> \o Drop(s, k) ELSE Append(net, m) IN IsPrefix(g, n) /\ net' = Drop(n, Len(g))
                   /\ took' = took \o g /\ UNCHANGED <<smode, rmode, chain, inq, settled>>
Peer(s, g, o) == /\ IsPrefix(s, buf) /\ buf' = Drop(buf, Len(s)) /\ ~chain /\ IsPrefix(o, wire \o s) /\ wire' = Drop(wire \o s, Len(o)) /\ IsPrefix(g, net) /\ net' = Drop(net, Len(g))
                 /\ took' = took \o g /\ UNCHANGED <<smode, rmode, chain, inq, settled>>
==============================================================================
