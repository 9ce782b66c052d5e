------------------------------- MODULE ConvMC -------------------------------
(* The uniformly partitioned engine as implemented - a ring of windows of two blocks, filters cut into partitions of one
   block, two filter buffers per slot with an active index and a ramp block counter, outputs zeroed and summed over the
   routing table - refines the direct description of module Conv for every history of changes and blocks. *)
EXTENDS Conv
CONSTANTS B, Len0, Fade, NF, MaxOps, Samples, Kind
VARIABLES ring, off, win, buf, act, rb, yi, ys, n
mv == <<cfg, st, hist, q, ring, off, win, buf, act, rb, yi, ys, n>>
P == (Len0 + B - 1) \div B
NRB == (Fade + B - 1) \div B + 1
C == [kind |-> Kind, ni |-> 1, no |-> 1, b |-> B, L |-> Len0, maxR |-> 1, maxF |-> NF, T |-> Fade, nint |-> 0]
RECURSIVE Strings(_)
Strings(k) == IF k = 0 THEN {<<>>} ELSE {Append(s, x) : s \in Strings(k - 1), x \in Samples}
Irs == {<<>>} \union {<<1>>} \union {[i \in 1..Len0 |-> i], [i \in 1..Len0 |-> IF i = Len0 THEN -2 ELSE 0]}
Empty == [p \in 0..(P - 1) |-> [k \in 1..B |-> 0]]
Cut(f) == [p \in 0..(P - 1) |-> [k \in 1..B |-> At(f, p * B + k)]]
Ended == [k \in 1..NF |-> NRB - 1]
MCInit == /\ cfg = C /\ st = Blank(C) /\ hist = ZeroHist(C) /\ q = NoQ /\ n = 0
          /\ ring = [p \in 0..(P - 1) |-> [k \in 1..(2 * B) |-> 0]] /\ off = 0 /\ win = [k \in 1..(2 * B) |-> 0]
          /\ buf = [k \in 1..NF |-> <<Empty, Empty>>] /\ act = [k \in 1..NF |-> 1] /\ rb = Ended /\ yi = <<>> /\ ys = <<>>
Keep == UNCHANGED <<cfg, hist, q, ring, off, win, yi, ys>>
MSet == \E k \in 1..NF, f \in Irs, s \in (IF Kind = "mc" THEN {FALSE} ELSE BOOLEAN) :
          /\ st' = SetF(C, st, k - 1, f, s) /\ Keep
          /\ IF Kind = "mc" THEN buf' = [buf EXCEPT ![k][1] = Cut(f)] /\ UNCHANGED <<act, rb>>
             ELSE /\ act' = [act EXCEPT ![k] = 3 - @] /\ buf' = [buf EXCEPT ![k][3 - act[k]] = Cut(f)]
                  /\ rb' = [rb EXCEPT ![k] = IF s THEN 0 ELSE @]
MClear == st' = ClearF(C, st) /\ buf' = [k \in 1..NF |-> <<Empty, Empty>>] /\ UNCHANGED <<act, rb>> /\ Keep
MInit == \E f \in Irs : /\ st' = AllF(C, st, <<f>>) /\ act' = [k \in 1..NF |-> 1] /\ rb' = Ended /\ Keep
                        /\ buf' = [k \in 1..NF |-> IF k = 1 THEN <<Cut(f), Empty>> ELSE <<Empty, Empty>>]
MRoute == \E k \in 1..NF, g \in {4, -2} : st' = SetR(st, [i |-> 0, o |-> 0, f |-> k - 1, g |-> g]) /\ UNCHANGED <<buf, act, rb>> /\ Keep
MUnroute == st' = DelR(st, 0, 0) /\ UNCHANGED <<buf, act, rb>> /\ Keep
\* second half of the circular convolution of a window of two blocks with a partition
Part(r, h, t) == Dot(h, r, B + t + 1, B)
RECURSIVE AllParts(_, _, _, _, _)
AllParts(rg, o, h, t, p) == IF p < 0 THEN 0 ELSE Part(rg[(o + p) % P], h[p], t) + AllParts(rg, o, h, t, p - 1)
RampAt(k, t) == LET j == rb[k] * B + t IN IF Fade = 0 \/ j > Fade THEN TT ELSE j
MBlk == \E x \in Strings(B) :
   LET w2 == SubSeq(win, B + 1, 2 * B) \o x
       o2 == (off + P - 1) % P
       r2 == [ring EXCEPT ![o2] = w2]
       h2 == Shift(hist, <<x>>)
       Rt == st.rt[<<0, 0>>]
       k == Rt[1] + 1
   IN /\ win' = w2 /\ off' = o2 /\ ring' = r2 /\ hist' = h2 /\ UNCHANGED <<cfg, q, buf, act>>
      /\ rb' = [j \in 1..NF |-> IF rb[j] + 1 < NRB - 1 THEN rb[j] + 1 ELSE NRB - 1]
      /\ ys' = [t \in 1..B |-> Output(st, h2, 1, t)]
      /\ yi' = [t \in 1..B |-> IF st.rt = NoR(st).rt THEN 0
                               ELSE IF Kind = "mc" THEN Rt[2] * AllParts(r2, o2, buf[k][1], t, P - 1)
                               ELSE LET g == RampAt(k, t) IN
                                    Rt[2] * (g * AllParts(r2, o2, buf[k][act[k]], t, P - 1) + (TT - g) * AllParts(r2, o2, buf[k][3 - act[k]], t, P - 1))]
      /\ st' = Advance(C, st)
MCNext == n < MaxOps /\ n' = n + 1 /\ (MSet \/ MClear \/ MInit \/ MRoute \/ MUnroute \/ MBlk)
MCSpec == MCInit /\ [][MCNext]_mv
Refines == yi = ys
\* once a fade is over the previous filter is inaudible; a weight never leaves the admissible range
Settles == \A k \in 1..NF : st.slot[k].el >= TT => \A t \in 1..B : Weight(st.slot[k], t) = TT
InRange == \A k \in 1..NF : \A t \in 1..B : Weight(st.slot[k], t) \in 0..TT
Bounded == Cardinality(DOMAIN st.rt) <= C.maxR
=============================================================================
