------------------------------ MODULE ArrayMC ------------------------------
\* Small descriptions: every accepted one means a coherent array, and the meaning does not depend on the order in which the loudspeakers are listed.
EXTENDS Array, TLC
CONSTANTS Chans
P == [k |-> "c", m |-> FALSE, v |-> <<1, 2, 3>>]
NoG == [k |-> "", v |-> 0]
NoE == [k |-> FALSE, n |-> ""]
Spk(i, c) == [id |-> i, ch |-> c, p |-> P, g |-> [k |-> "l", v |-> c], t |-> c, e |-> NoE]
A == <<65>>  B == <<66>>  SA == <<32, 65>>  V == <<86>>  X == <<35>>
IdSet == {A, B, SA}
Vs == {<<>>} \union {<<[id |-> i, p |-> P, r |-> r]>> : i \in {V, A}, r \in {<<>>, <<[id |-> A, g |-> 0]>>, <<[id |-> V, g |-> 0]>>, <<[id |-> A, g |-> 0], [id |-> SA, g |-> 20]>>}}
Ts == {<<>>, <<<<A, V, B>>>>}
Ss == {<<>>} \union {<<[ch |-> c, a |-> a, w |-> w, g |-> NoG, t |-> 0, e |-> NoE]>> : c \in Chans, a \in {<<A, SA>>, <<V>>}, w \in {[k |-> FALSE, v |-> <<>>], [k |-> TRUE, v |-> <<5>>]}}
Ls == {<<Spk(X, 1)>>, <<Spk(A, 0)>>} \union {<<Spk(i, c)>> : i \in IdSet, c \in Chans} \union {<<Spk(i, c), Spk(j, e)>> : i \in IdSet, j \in IdSet, c \in Chans, e \in Chans}
Docs == {[dim |-> m, inf |-> FALSE, l |-> ls, v |-> vs, t |-> ts, s |-> ss, ne |-> 0 - 1, f |-> <<>>] : m \in {"", "2"}, ls \in Ls, vs \in Vs, ts \in Ts, ss \in Ss}
Init == arr = <<>>
Next == \/ \E d \in Docs: (DOMAIN arr = {}) /\ Load(1, d)
        \/ 1 \in DOMAIN arr /\ ~(2 \in DOMAIN arr) /\ Assign(2, 1)
Spec == Init /\ [][Next]_arr
Copied == 2 \in DOMAIN arr => arr[2] = arr[1]
Rev(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
OrderFree == \A ls \in Ls: \A vs \in Vs: LET d == [dim |-> "", inf |-> FALSE, l |-> ls, v |-> vs, t |-> <<>>, s |-> <<>>, ne |-> 0 - 1, f |-> <<>>] IN
             LET r == [d EXCEPT !.l = Rev(ls)] IN Accepted(d) = Accepted(r) /\ (Accepted(d) => Contents(d) = Contents(r))
ASSUME TLCEval(OrderFree)
ASSUME \E d \in Docs: Accepted(d) /\ Len(d.v) = 1 /\ Len(d.s) = 1 /\ Len(d.t) = 1 /\ Len(d.l) >= 1
ASSUME \A d \in Docs: Accepted(d) => \A i \in 1..Len(Contents(d).ids): Index(d, Contents(d).ids[i]) = i - 1
=============================================================================
