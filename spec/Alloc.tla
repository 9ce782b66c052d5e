-------------------------------- MODULE Alloc --------------------------------
(* Allocation of a fixed number of rendering channels to the objects of a scene. *)
EXTENDS Integers, Sequences, FiniteSets
VARIABLES n, chan      \* chan[c+1]: object of channel c, -1 if free
vars == <<n, chan>>
Objs(ch) == {ch[i] : i \in DOMAIN ch} \ {-1}
AllocInit == n = 0 /\ chan = <<>>
Make(k) == n' = k /\ chan' = [i \in 1..k |-> -1]
Ids(s) == {s[i] : i \in DOMAIN s}
Unique(s) == Cardinality(Ids(s)) = Len(s)
\* new assignment ch after the set of active objects became s
Fits(s, ch) == /\ Len(ch) = n
               /\ Objs(ch) = Ids(s)                                        \* every object has a channel, nobody else has one
               /\ \A i, j \in 1..n : i # j /\ ch[i] # -1 => ch[i] # ch[j]   \* channels are exclusive
               /\ \A i \in 1..n : chan[i] \in Ids(s) => ch[i] = chan[i]     \* channels are kept
Set(s, r, ch) == /\ n' = n /\ chan' = ch
                 /\ IF Len(s) > n \/ ~Unique(s) THEN r = "ex" /\ ch = chan ELSE r = "" /\ Fits(s, ch)
Exclusive == \A i, j \in DOMAIN chan : i # j /\ chan[i] # -1 => chan[i] # chan[j]
=============================================================================
