------------------------------- MODULE Array -------------------------------
\* Loudspeaker array configurations: what a description means and which descriptions are refused.
\* Identifiers and names are sequences of character codes; lengths and gains are in 1/1000, delays in 1/100000 s.
EXTENDS Integers, Sequences, FiniteSets
VARIABLES arr    \* array number -> contents, or Unknown after a refused description
Unknown == [u |-> TRUE]
Blank(c) == c \in {9, 32}
RECURSIVE TrimL(_)
TrimL(s) == IF s # <<>> /\ Blank(Head(s)) THEN TrimL(Tail(s)) ELSE s
RECURSIVE TrimR(_)
TrimR(s) == IF s # <<>> /\ Blank(s[Len(s)]) THEN TrimR(SubSeq(s, 1, Len(s) - 1)) ELSE s
Trim(s) == TrimL(TrimR(s))
Squeeze(s) == SelectSeq(s, LAMBDA c: c \notin {9, 10, 11, 12, 13, 32})
Letter(c) == c \in 48..57 \/ c \in 65..90 \/ c \in 97..122 \/ c \in {64, 38, 40, 41, 43, 47, 58, 95, 45}
ValidId(s) == s # <<>> /\ \A i \in 1..Len(s): Letter(s[i])
Range(s) == {s[i] : i \in 1..Len(s)}
Distinct(s) == Cardinality(Range(s)) = Len(s)
At(s, x) == CHOOSE i \in 1..Len(s): s[i] = x
Last(s, P(_)) == LET S == {i \in 1..Len(s): P(s[i])} IN IF S = {} THEN 0 ELSE CHOOSE i \in S: \A j \in S: j <= i
First(s, P(_)) == LET S == {i \in 1..Len(s): P(s[i])} IN IF S = {} THEN 0 ELSE CHOOSE i \in S: \A j \in S: i <= j

\* multiples of a quarter turn
Cos(q) == CASE q % 4 = 0 -> 1 [] q % 4 = 2 -> 0 - 1 [] OTHER -> 0
Sin(q) == Cos(q + 3)

\* ------ a description: d.dim, d.inf, d.l (loudspeakers), d.v (virtual), d.t (triplets), d.s (subwoofers), d.ne (equaliser sections: -1 none, -2 ambiguous), d.f (filters)
TwoD(d) == d.dim = "2"
\* a coordinate: kind "c" (x, y, z) or "p" (azimuth, elevation in quarter turns, radius); a missing third/second coordinate is flagged
CoordOk(d, c) == c.k \in {"c", "p"} /\ (c.m => TwoD(d))
Coord(c) == IF c.k = "c" THEN <<c.v[1], c.v[2], IF c.m THEN 0 ELSE c.v[3]>>
            ELSE LET el == IF c.m THEN 0 ELSE c.v[2] IN <<c.v[3] * Cos(c.v[1]) * Cos(el), c.v[3] * Sin(c.v[1]) * Cos(el), c.v[3] * Sin(el)>>
Decibel(n) == CASE n = 0 -> 1000 [] n = 20 -> 10000 [] n = 40 -> 100000 [] n = 0 - 20 -> 100 [] n = 0 - 40 -> 10 [] n = 0 - 60 -> 1
\* level adjustment: g.k "" (none), "l" (linear), "d" (decibel), "b" (both)
Adjust(g) == CASE g.k = "l" -> g.v [] g.k = "d" -> Decibel(g.v) [] OTHER -> 1000
Ids(d) == [i \in 1..Len(d.l) |-> Trim(d.l[i].id)]
VIds(d) == [i \in 1..Len(d.v) |-> Trim(d.v[i].id)]
Known(d, x) == x \in Range(Ids(d)) \union Range(VIds(d))
Filter(d, n) == First(d.f, LAMBDA f: f.n = n)
EqOk(d, e) == d.ne < 0 \/ ~e.k \/ (Filter(d, e.n) # 0 /\ Len(d.f[Filter(d, e.n)].b) <= d.ne)
SubIds(s) == [i \in 1..Len(s.a) |-> Squeeze(s.a[i])]
Channels(d) == [i \in 1..Len(d.l) |-> d.l[i].ch]
SubChannels(d) == [i \in 1..Len(d.s) |-> d.s[i].ch]
SpeakerOk(d, x) == ValidId(Trim(x.id)) /\ x.ch >= 1 /\ CoordOk(d, x.p) /\ x.g.k # "b" /\ EqOk(d, x.e)
VirtualOk(d, x) == ValidId(Trim(x.id)) /\ CoordOk(d, x.p) /\ \A i \in 1..Len(x.r): Trim(x.r[i].id) \in Range(Ids(d))
TripletOk(d, t) == (Len(t) = 3 \/ TwoD(d)) /\ \A i \in 1..(IF TwoD(d) THEN 2 ELSE 3): Known(d, Trim(t[i]))
SubOk(d, s) == /\ Len(s.a) > 0 /\ \A i \in 1..Len(s.a): SubIds(s)[i] \in Range(Ids(d))
               /\ (s.w.k => Len(s.w.v) = Len(s.a)) /\ s.g.k # "b" /\ EqOk(d, s.e)
Accepted(d) == /\ d.dim \in {"", "2", "3"} /\ d.ne # 0 - 2
               /\ \A i \in 1..Len(d.l): SpeakerOk(d, d.l[i])
               /\ \A i \in 1..Len(d.v): VirtualOk(d, d.v[i])
               /\ Distinct(Ids(d) \o VIds(d)) /\ Distinct(Channels(d) \o SubChannels(d))
               /\ \A i \in 1..Len(d.t): TripletOk(d, d.t[i])
               /\ \A i \in 1..Len(d.s): SubOk(d, d.s[i])

\* ------ contents of an accepted description: loudspeakers ordered by output channel, then the virtual ones
Rank(d, i) == Cardinality({j \in 1..Len(d.l): d.l[j].ch < d.l[i].ch}) + 1
Order(d) == [k \in 1..Len(d.l) |-> CHOOSE i \in 1..Len(d.l): Rank(d, i) = k]
Index(d, x) == IF x \in Range(Ids(d)) THEN Rank(d, At(Ids(d), x)) - 1 ELSE Len(d.l) + At(VIds(d), x) - 1
Neutral == <<1000, 0, 0, 0, 0>>
Sections(d, e) == LET b == IF e.k THEN d.f[Filter(d, e.n)].b ELSE <<>> IN [s \in 1..d.ne |-> IF s <= Len(b) THEN b[s] ELSE Neutral]
Contents(d) == LET o == Order(d)  n == Len(d.l)  v == Len(d.v)  u == Len(d.s)  ids == [i \in 1..n + v |-> IF i <= n THEN Ids(d)[o[i]] ELSE VIds(d)[i - n]] IN
  [d2 |-> TwoD(d), inf |-> d.inf, infs |-> TRUE, ok |-> TRUE,
   pos |-> [i \in 1..n + v |-> Coord(IF i <= n THEN d.l[o[i]].p ELSE d.v[i - n].p)],
   ids |-> ids, back |-> [i \in 1..n + v |-> i - 1], ch |-> [i \in 1..n |-> d.l[o[i]].ch],
   tri |-> [i \in 1..Len(d.t) |-> [k \in 1..(IF TwoD(d) THEN 2 ELSE 3) |-> Index(d, Trim(d.t[i][k]))]],
   sc |-> SubChannels(d),
   sub |-> [s \in 1..u |-> [i \in 1..n |-> LET k == Last(SubIds(d.s[s]), LAMBDA x: x = ids[i]) IN IF k = 0 THEN 0 ELSE IF d.s[s].w.k THEN d.s[s].w.v[k] ELSE 1000]],
   rer |-> [j \in 1..v |-> [i \in 1..n |-> LET k == Last(d.v[j].r, LAMBDA x: Trim(x.id) = ids[i]) IN IF k = 0 THEN 0 ELSE Decibel(d.v[j].r[k].g)]],
   gain |-> [i \in 1..n + u |-> Adjust(IF i <= n THEN d.l[o[i]].g ELSE d.s[i - n].g)],
   del |-> [i \in 1..n + u |-> IF i <= n THEN d.l[o[i]].t ELSE d.s[i - n].t],
   ns |-> d.ne,
   eq |-> IF d.ne < 0 THEN <<>> ELSE [i \in 1..n + u |-> Sections(d, IF i <= n THEN d.l[o[i]].e ELSE d.s[i - n].e)]]
Empty == [d2 |-> FALSE, inf |-> FALSE, infs |-> TRUE, ok |-> TRUE, pos |-> <<>>, ids |-> <<>>, back |-> <<>>, ch |-> <<>>, tri |-> <<>>, sc |-> <<>>, sub |-> <<>>, rer |-> <<>>, gain |-> <<>>, del |-> <<>>, ns |-> 0 - 1, eq |-> <<>>]

Set(k, c) == arr' = [j \in DOMAIN arr \union {k} |-> IF j = k THEN c ELSE arr[j]]
Get(k) == IF k \in DOMAIN arr THEN arr[k] ELSE Empty
Load(k, d) == Set(k, IF Accepted(d) THEN Contents(d) ELSE Unknown)
Assign(k, f) == Set(k, Get(f))
New(k) == Set(k, Empty)
Find(k, id) == LET S == {i \in 1..Len(Get(k).ids): Get(k).ids[i] = id} IN IF S = {} THEN 0 - 1 ELSE (CHOOSE i \in S: TRUE) - 1

\* ------ what the rest of the system relies on
WellFormed(c) == /\ Len(c.ch) + Len(c.rer) = Len(c.pos) /\ Len(c.ids) = Len(c.pos) /\ Distinct(c.ids) /\ Distinct(c.ch \o c.sc)
                 /\ \A i \in 1..Len(c.ch) - 1: c.ch[i] < c.ch[i + 1]
                 /\ \A i \in 1..Len(c.ch): c.ch[i] >= 1
                 /\ \A i \in 1..Len(c.tri): \A k \in 1..Len(c.tri[i]): c.tri[i][k] \in 0..Len(c.pos) - 1
                 /\ \A i \in 1..Len(c.rer): Len(c.rer[i]) = Len(c.ch)
                 /\ Len(c.gain) = Len(c.ch) + Len(c.sc) /\ Len(c.del) = Len(c.gain)
                 /\ (c.ns >= 0 => Len(c.eq) = Len(c.gain) /\ \A i \in 1..Len(c.eq): Len(c.eq[i]) = c.ns)
Coherent == \A k \in DOMAIN arr: "u" \notin DOMAIN arr[k] => WellFormed(arr[k])
=============================================================================
