------------------------------- MODULE AllocMC -------------------------------
(* All histories over a small universe; the assignment of new objects to free channels is left open.
   hist records the operations for replay into the implementation. *)
EXTENDS Alloc, TLC, Json
CONSTANTS N, U, Depth, Log
VARIABLE hist
mc == <<n, chan, hist>>
MCInit == n = N /\ chan = [i \in 1..N |-> -1] /\ hist = <<>>
Lists == UNION {[1..k -> U] : k \in 0..(N + 1)}
MCSet == \E s \in Lists : Len(hist) < Depth
           /\ (IF Len(s) > N \/ ~Unique(s) THEN Set(s, "ex", chan)
               ELSE \E ch \in [1..N -> Ids(s) \cup {-1}] : Set(s, "", ch))
           /\ hist' = IF Log THEN Append(hist, s) ELSE hist
MCSpec == MCInit /\ [][MCSet]_mc
\* an object that stays active never moves
Stable == [][\A i \in 1..N : chan[i] # -1 /\ chan[i] \in Objs(chan') => chan'[i] = chan[i]]_mc
\* there is always a legal assignment
Possible == \A S \in SUBSET U : Cardinality(S) <= N =>
              \E ch \in [1..N -> S \cup {-1}] : Objs(ch) = S /\ (\A i, j \in 1..N : i # j /\ ch[i] # -1 => ch[i] # ch[j]) /\ (\A i \in 1..N : chan[i] \in S => ch[i] = chan[i])
Emit == Len(hist) = Depth => PrintT("@@" \o ToJson(hist))
=============================================================================
