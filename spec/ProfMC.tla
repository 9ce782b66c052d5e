------------------------------- MODULE ProfMC -------------------------------
(* The ring written in place by the implementation's scheme (row number modulo capacity, two buffers exchanged by a fetch) always shows
   what the specification demands, and Welford's recurrence agrees with the definition of mean and variance. *)
EXTENDS Prof
CONSTANTS MaxBlocks, Caps, Values
VARIABLES front, back, count, blocks
mv == <<pv, front, back, count, blocks>>
Clear(c) == [i \in 0..(c - 1) |-> <<0>>]
MCInit == n = 1 /\ on = TRUE /\ cap \in Caps /\ meas = <<>> /\ stat = <<>> /\ front = Clear(cap) /\ back = Clear(cap) /\ count = 0 /\ blocks = 0
Step(v) == /\ blocks < MaxBlocks /\ blocks' = blocks + 1 /\ UNCHANGED <<n, on, cap, back>> /\ Block(<<v>>) /\ count' = count + 1
           /\ front' = IF cap = 0 THEN front ELSE [front EXCEPT ![count % cap] = <<v>>]
Fetch == /\ meas' = <<>> /\ count' = 0 /\ back' = front /\ front' = back /\ UNCHANGED <<n, on, cap, stat, blocks>>
MCNext == (\E v \in Values : Step(v)) \/ (count > 0 /\ Fetch)
MCSpec == MCInit /\ [][MCNext]_mv
RingShows == \A i \in DOMAIN Shown : front[i] = Shown[i]
Counts == count = Len(meas) /\ Cardinality(DOMAIN Shown) = IF count < cap THEN count ELSE cap
Latest == \A k \in 1..Len(meas) : k > Len(meas) - cap => \E i \in DOMAIN Shown : Shown[i] = meas[k]
Q(r) == Len(r) * SumSq(r, 1) - Sum(r, 1) * Sum(r, 1)
Welford == Len(stat) >= 2 => LET k == Len(stat) p == SubSeq(stat, 1, k - 1) v == stat[k][1]
           IN (k - 1) * Q(stat) = k * Q(p) + ((k - 1) * v - Sum(p, 1)) * (k * v - Sum(stat, 1))
Spread == VarNum(1) >= 0 /\ (VarNum(1) = 0 <=> \A i \in 1..Len(stat) : stat[i] = stat[1])
=============================================================================
