------------------------------- MODULE RampMC -------------------------------
(* One matrix element pair under every short history of retargeting and blocks: the applied gain never moves by more
   than the slope of the transition (plus rounding), stays between start and target and is the target at the end. *)
EXTENDS Ramp, TLC
CONSTANTS MaxOps, G
VARIABLES n, hist   \* hist: the gains applied in the last block (with the one before)
MCInit == /\ \E b \in {1, 2, 4}, st \in {0, 4, 8} : B = b /\ Steps = st
          /\ pos = 0 /\ el = [i \in 1..2 |-> [r |-> 0, c |-> i - 1, s |-> 0, t |-> 0, free |-> FALSE]] /\ n = 0 /\ hist = <<0>>
Gains == [1..2 -> {k * One : k \in G}]
MCNext == n < MaxOps /\ n' = n + 1 /\
  \/ \E g \in Gains : Retarget(g) /\ UNCHANGED hist
  \/ \E out \in {<<[k \in 1..B |-> Expected(<<[j \in 1..B |-> 1], [j \in 1..B |-> 0]>>, 1, k)]>>} :
        Block(<<[j \in 1..B |-> 1], [j \in 1..B |-> 0]>>, out, 0)
        /\ hist' = <<hist[Len(hist)]>> \o [k \in 1..B |-> SampleGain(el[1], k)]
MCSpec == MCInit /\ [][MCNext]_<<el, pos, B, Steps, n, hist>>
Abs(x) == IF x < 0 THEN -x ELSE x
Span == CHOOSE d \in {One * (a - b) : a, b \in G} : \A x \in {One * (a - b) : a, b \in G} : x <= d
Continuous == Steps > 0 => \A k \in 2..Len(hist) : Abs(hist[k] - hist[k - 1]) <= Span \div Steps + 2
Reached == Done(pos) => \A i \in DOMAIN el : GainAt(el[i], pos) = el[i].t
Bounded == \A i \in DOMAIN el : LET g == GainAt(el[i], pos) IN
             (g >= el[i].s - 1 /\ g <= el[i].t + 1) \/ (g <= el[i].s + 1 /\ g >= el[i].t - 1)
=============================================================================
