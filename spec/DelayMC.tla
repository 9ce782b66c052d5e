------------------------------- MODULE DelayMC -------------------------------
(* The circular buffer as implemented (a doubled ring with a write index) refines the history of the signal: after any
   sequence of writes every readable delay shows the same samples; and delay transitions never make the position jump. *)
EXTENDS Delay, TLC
CONSTANTS L, Alloc, MaxOps, Values2
VARIABLES ring, w, n, step, pj   \* ring: 2*Alloc samples; w: write index; pj: largest step of the read position in the last block
mv == <<hist, cfg, el, K, kd, kg, ring, w, n, step, pj>>
MCInit == /\ hist = [c \in 1..1 |-> <<>>] /\ cfg = [n |-> 1, b |-> 2, max |-> L, ord |-> 1, pol |-> "limit", keep |-> 2 * L + 8]
          /\ el = [i \in {0} |-> [r |-> 0, c |-> 0, d0 |-> 0, d1 |-> 0, g0 |-> G, g1 |-> G]] /\ K \in {1, 2, 4} /\ kd = K /\ kg = K
          /\ ring = [i \in 0..(2 * Alloc - 1) |-> 0] /\ w = 0 /\ n = 0 /\ step = 0 /\ pj = 0
Put(r, s) == \* write at w, then mirror
  LET a == [i \in DOMAIN r |-> IF i >= w /\ i < w + Len(s) THEN s[i - w + 1] ELSE r[i]]
      e1 == IF w + Len(s) < Alloc THEN w + Len(s) ELSE Alloc
      b == [i \in DOMAIN a |-> IF i >= w + Alloc /\ i < e1 + Alloc THEN a[i - Alloc] ELSE a[i]]
  IN [i \in DOMAIN b |-> IF i < w + Len(s) - Alloc THEN b[i + Alloc] ELSE b[i]]
RECURSIVE Strings(_)
Strings(k) == IF k = 0 THEN {<<>>} ELSE {Append(s, x) : s \in Strings(k - 1), x \in Values2}
WriteRing == \E k \in 1..L : \E s \in Strings(k) :
   Write(<<s>>) /\ ring' = Put(ring, s) /\ w' = (w + k) % Alloc /\ UNCHANGED <<el, K, kd, kg, step, pj>>
Abs(x) == IF x < 0 THEN -x ELSE x
Retarget == \E d \in {0, F, 3 * F} : SetDelay([i \in {0} |-> d]) /\ UNCHANGED <<hist, cfg, ring, w, step, pj>>
Advance == /\ kd' = Min(kd + 1, K) /\ kg' = Min(kg + 1, K) /\ step' = Ramp(el[0].d0, el[0].d1, kd', K)
           /\ pj' = Abs(step' - step) /\ UNCHANGED <<hist, cfg, el, K, ring, w>>
MCNext == n < MaxOps /\ n' = n + 1 /\ (WriteRing \/ Retarget \/ Advance)
MCSpec == MCInit /\ [][MCNext]_mv
ReadsAgree == \A d \in 0..L : [i \in 1..d |-> ring[Alloc + w - d + i - 1]] = Last(hist[1], d)
NoJump == pj <= (3 * F) \div K + 2
Arrives == kd = K => NowD(el[0]) = el[0].d1
=============================================================================
