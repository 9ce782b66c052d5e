-------------------------------- MODULE Flex --------------------------------
(* Adapter between calls of arbitrary length and a flow with a fixed block length: input samples are
   collected until a block is complete, output samples are handed out with a constant latency of one block. *)
EXTENDS Integers, Sequences
VARIABLES per, nin, nout,
          pend,    \* channel -> input samples the flow has not seen yet
          outq,    \* channel -> output samples not handed out yet
          left     \* -1 between calls, else number of samples the call in progress has to return
vars == <<per, nin, nout, pend, outq, left>>
FlexInit == per = 0 /\ nin = 0 /\ nout = 0 /\ pend = <<>> /\ outq = <<>> /\ left = -1
Zeros(n) == [i \in 1..n |-> 0]
Make(p, i, o) == /\ per' = p /\ nin' = i /\ nout' = o /\ left' = -1
                 /\ pend' = [c \in 1..i |-> <<>>] /\ outq' = [c \in 1..o |-> Zeros(p)]
\* the level of the collecting buffer is the same for all channels; it must be known for flows without inputs as well
CONSTANT Null
VARIABLE level
fvars == <<vars, level>>
Begin(n, x) == /\ left = -1 /\ Len(x) = nin /\ \A c \in 1..nin : Len(x[c]) = n
               /\ left' = n /\ level' = level + n
               /\ pend' = [c \in 1..nin |-> pend[c] \o x[c]]
               /\ UNCHANGED <<per, nin, nout, outq>>
\* the flow runs on the oldest block as soon as there is one
RunFlow(x, y) ==
              /\ left >= 0 /\ level >= per
              /\ Len(x) = nin /\ \A c \in 1..nin : x[c] = SubSeq(pend[c], 1, per)
              /\ Len(y) = nout
              /\ pend' = [c \in 1..nin |-> SubSeq(pend[c], per + 1, Len(pend[c]))]
              /\ outq' = [c \in 1..nout |-> outq[c] \o y[c]]
              /\ level' = level - per
              /\ UNCHANGED <<per, nin, nout, left>>
End(y) == /\ left >= 0 /\ level < per
          /\ Len(y) = nout /\ \A c \in 1..nout : y[c] = SubSeq(outq[c], 1, left)
          /\ outq' = [c \in 1..nout |-> SubSeq(outq[c], left + 1, Len(outq[c]))]
          /\ left' = -1
          /\ UNCHANGED <<per, nin, nout, pend, level>>
\* constant latency: what is buffered always amounts to exactly one block
Latency == left = -1 => /\ \A c \in 1..nin : Len(pend[c]) = level
                        /\ \A c \in 1..nout : Len(outq[c]) + level = per
                        /\ (per > 0 => level < per)
=============================================================================
