------------------------------- MODULE Comm -------------------------------
(* The three parameter exchange protocols of VISR: message queue (1:1 FIFO), double buffering
   (1:N, published by an explicit swap) and shared data (1:N, one common value).
   Protocol instances are 1..np, receivers 1..ni, senders 1..no; the ports ni+1 and no+1 belong to
   a different protocol and may never be attached. *)
EXTENDS Integers, Sequences, FiniteSets

VARIABLES kind,      \* "none" before construction, then "MQ", "DB" or "SD"
          np, ni, no,
          inOf,      \* receiver -> protocol it is attached to, 0 if none
          outOf,     \* sender -> protocol, 0 if none
          que,       \* MQ: protocol -> sequence of values
          front,     \* DB: protocol -> value the sender sees; SD: the shared value
          back,      \* DB: protocol -> value the receivers see
          changed    \* DB: receiver -> notification flag

vars == <<kind, np, ni, no, inOf, outOf, que, front, back, changed>>

Unknown == -999      \* a value the interface leaves open
Fits(actual, spec) == spec = Unknown \/ actual = spec

CommInit == /\ kind = "none" /\ np = 0 /\ ni = 0 /\ no = 0
            /\ inOf = <<>> /\ outOf = <<>> /\ que = <<>> /\ front = <<>> /\ back = <<>> /\ changed = <<>>

Make(k, p, i, o) ==
  /\ kind' = k /\ np' = p /\ ni' = i /\ no' = o
  /\ inOf' = [x \in 1..(i+1) |-> 0] /\ outOf' = [x \in 1..(o+1) |-> 0]
  /\ que' = [x \in 1..p |-> <<>>]
  /\ front' = [x \in 1..p |-> Unknown] /\ back' = [x \in 1..p |-> Unknown]
  /\ changed' = [x \in 1..(i+1) |-> FALSE]

\* ---- attaching and detaching ports
ForeignIn(x) == x = ni + 1
ForeignOut(x) == x = no + 1
InputsOf(p) == {x \in 1..ni : inOf[x] = p}
OutputsOf(p) == {x \in 1..no : outOf[x] = p}

ConnectIn(p, x, r) ==
  /\ inOf[x] \in {0, p}   \* moving an attached port to another instance is not part of the contract
  /\ LET refuse == ForeignIn(x) \/ (kind = "MQ" /\ InputsOf(p) # {}) IN
       /\ r = IF refuse THEN "ex" ELSE ""
       /\ inOf' = IF refuse THEN inOf ELSE [inOf EXCEPT ![x] = p]
  /\ UNCHANGED <<kind, np, ni, no, outOf, que, front, back, changed>>

ConnectOut(p, x, r) ==
  /\ outOf[x] \in {0, p}
  /\ LET refuse == ForeignOut(x) \/ OutputsOf(p) # {} IN
       /\ r = IF refuse THEN "ex" ELSE ""
       /\ outOf' = IF refuse THEN outOf ELSE [outOf EXCEPT ![x] = p]
  /\ UNCHANGED <<kind, np, ni, no, inOf, que, front, back, changed>>

DisconnectIn(p, x, r) ==
  /\ r = (~ForeignIn(x) /\ inOf[x] = p)
  /\ inOf' = IF r THEN [inOf EXCEPT ![x] = 0] ELSE inOf
  /\ UNCHANGED <<kind, np, ni, no, outOf, que, front, back, changed>>

DisconnectOut(p, x, r) ==
  /\ r = (~ForeignOut(x) /\ outOf[x] = p)
  /\ outOf' = IF r THEN [outOf EXCEPT ![x] = 0] ELSE outOf
  /\ UNCHANGED <<kind, np, ni, no, inOf, que, front, back, changed>>

\* ---- message queue
Enqueue(x, v) == /\ kind = "MQ" /\ outOf[x] # 0
                 /\ que' = [que EXCEPT ![outOf[x]] = Append(@, v)]
                 /\ UNCHANGED <<kind, np, ni, no, inOf, outOf, front, back, changed>>
SizeOut(x, n, e) == /\ kind = "MQ" /\ outOf[x] # 0
                    /\ n = Len(que[outOf[x]]) /\ e = (n = 0) /\ UNCHANGED vars
SizeIn(x, n, e) == /\ kind = "MQ" /\ inOf[x] # 0
                   /\ n = Len(que[inOf[x]]) /\ e = (n = 0) /\ UNCHANGED vars
Front(x, r, v) == /\ kind = "MQ" /\ inOf[x] # 0
                  /\ IF que[inOf[x]] = <<>> THEN r = "ex" ELSE r = "" /\ v = Head(que[inOf[x]])
                  /\ UNCHANGED vars
Pop(x, r) == /\ kind = "MQ" /\ inOf[x] # 0
             /\ LET q == que[inOf[x]] IN
                  /\ r = IF q = <<>> THEN "ex" ELSE ""
                  /\ que' = IF q = <<>> THEN que ELSE [que EXCEPT ![inOf[x]] = Tail(@)]
             /\ UNCHANGED <<kind, np, ni, no, inOf, outOf, front, back, changed>>
Clear(x) == /\ kind = "MQ" /\ inOf[x] # 0
            /\ que' = [que EXCEPT ![inOf[x]] = <<>>]
            /\ UNCHANGED <<kind, np, ni, no, inOf, outOf, front, back, changed>>

\* ---- double buffering and shared data
Set(x, v) == /\ kind \in {"DB", "SD"} /\ outOf[x] # 0
             /\ front' = [front EXCEPT ![outOf[x]] = v]
             /\ UNCHANGED <<kind, np, ni, no, inOf, outOf, que, back, changed>>
Get(x, v) == /\ kind \in {"DB", "SD"} /\ outOf[x] # 0
             /\ Fits(v, front[outOf[x]]) /\ UNCHANGED vars
Read(x, v) == /\ kind \in {"DB", "SD"} /\ inOf[x] # 0
              /\ Fits(v, IF kind = "DB" THEN back[inOf[x]] ELSE front[inOf[x]]) /\ UNCHANGED vars
\* Publishing makes the sender's value visible to all receivers and raises their flags; the value the
\* sender sees afterwards is the published one if it asked for a copy, and unspecified otherwise.
Swap(x, copy) == /\ kind = "DB" /\ outOf[x] # 0
                 /\ LET p == outOf[x] IN
                      /\ back' = [back EXCEPT ![p] = front[p]]
                      /\ front' = [front EXCEPT ![p] = IF copy THEN @ ELSE Unknown]
                      /\ changed' = [y \in DOMAIN changed |-> changed[y] \/ inOf[y] = p]
                 /\ UNCHANGED <<kind, np, ni, no, inOf, outOf, que>>
Changed(x, f) == kind = "DB" /\ inOf[x] # 0 /\ f = changed[x] /\ UNCHANGED vars
Reset(x) == /\ kind = "DB" /\ inOf[x] # 0
            /\ changed' = [changed EXCEPT ![x] = FALSE]
            /\ UNCHANGED <<kind, np, ni, no, inOf, outOf, que, front, back>>

Unattached(op, x) == /\ IF op \in {"enq", "osize", "set", "get", "swap"} THEN outOf[x] = 0 ELSE inOf[x] = 0
                     /\ UNCHANGED vars

\* ---- properties of the design
AtMostOneSender == \A p \in 1..np : Cardinality(OutputsOf(p)) <= 1
QueueArity == kind = "MQ" => \A p \in 1..np : Cardinality(InputsOf(p)) <= 1
ForeignNeverAttached == kind # "none" => inOf[ni+1] = 0 /\ outOf[no+1] = 0
=============================================================================
