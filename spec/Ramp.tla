-------------------------------- MODULE Ramp --------------------------------
(* Gain elements that move linearly to their targets.  A gain vector is the set of its diagonal elements, a gain
   matrix that of all its elements, a sparse matrix that of its routing entries.  Gains in units of 1/One; the
   transition takes Steps samples (0: immediate); Blk samples are processed per block. *)
EXTENDS Integers, Sequences, FiniteSets
One == 65536
VARIABLES el,    \* element index -> [r: output, c: input, s: start, t: target, free: start is not determined]
          pos,   \* samples since the transition started
          B, Steps
Empty == [i \in {} |-> 0]
RInit == el = Empty /\ pos = 0 /\ B = 1 /\ Steps = 0
Done(p) == p >= Steps
GainAt(e, p) == IF Done(p) THEN e.t ELSE e.s + ((e.t - e.s) * p) \div Steps  \* after p samples of the transition
Setup(b, st, els) == B' = b /\ Steps' = st /\ el' = els /\ pos' = 0
\* a new target for every element; g: element index -> gain
Retarget(g) == /\ el' = [i \in DOMAIN el |-> [el[i] EXCEPT !.s = GainAt(el[i], pos), !.t = g[i], !.free = @ /\ ~Done(pos)]]
               /\ pos' = 0 /\ UNCHANGED <<B, Steps>>
\* a new set of elements: those that stay where they are move on, others may start anywhere
Replace(els) == /\ el' = [i \in DOMAIN els |->
                     IF i \in DOMAIN el /\ el[i].r = els[i].r /\ el[i].c = els[i].c
                     THEN [els[i] EXCEPT !.s = GainAt(el[i], pos), !.free = el[i].free /\ ~Done(pos)]
                     ELSE [els[i] EXCEPT !.free = TRUE]]
                /\ pos' = 0 /\ UNCHANGED <<B, Steps>>
RECURSIVE Sum(_, _)
Sum(f, S) == IF S = {} THEN 0 ELSE LET x == CHOOSE x \in S : TRUE IN f[x] + Sum(f, S \ {x})
\* gain of sample n (1..B) of the next block
SampleGain(e, n) == GainAt(e, pos + n)
Near(a, b, tol) == a - b <= tol /\ b - a <= tol
\* in: channels of integers; out: channels in units of 1/One
Expected(in, o, n) == LET S == {i \in DOMAIN el : el[i].r = o - 1}
                      IN Sum([i \in S |-> in[el[i].c + 1][n] * SampleGain(el[i], n)], S)
Judged(o) == Done(pos) \/ \A i \in DOMAIN el : el[i].r = o - 1 => ~el[i].free
Block(in, out, tol) == /\ \A o \in 1..Len(out) : Judged(o) => \A n \in 1..B : Near(out[o][n], Expected(in, o, n), tol)
                       /\ pos' = IF Done(pos) THEN pos ELSE pos + B
                       /\ UNCHANGED <<el, B, Steps>>
=============================================================================
