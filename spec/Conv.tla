-------------------------------- MODULE Conv --------------------------------
(* The partitioned convolvers (plain "mc", crossfading "xf", interpolating "ip") and the filter matrix components built
   on them.  Samples and impulse responses are integers, gains are quarters, interpolation weights are quarters. *)
EXTENDS Integers, Sequences, FiniteSets, TLC
VARIABLES cfg,   \* [kind, ni, no, b, L, maxR, maxF, T, nint]
          st,    \* [rt: <<output, input>> -> <<slot, gain>>, slot: sequence of [cur, old, el], store: sequence of responses]
          hist,  \* for every input the latest L - 1 + b samples, oldest first
          q      \* pending control messages [f, r, i: sequences, a: sequence of at most one list]
NoQ == [f |-> <<>>, r |-> <<>>, i |-> <<>>, a |-> <<>>]
Done == 1000000
TT == IF cfg.T > 0 THEN cfg.T ELSE 1
Min(a, b) == IF a < b THEN a ELSE b
NSlots(c) == IF c.kind = "ip" THEN c.maxR ELSE c.maxF
Silent == [cur |-> <<>>, old |-> <<>>, el |-> Done]
Blank(c) == [rt |-> [x \in {} |-> <<0, 0>>], slot |-> [k \in 1..NSlots(c) |-> Silent], store |-> [k \in 1..c.maxF |-> <<>>]]
ZeroHist(c) == [i \in 1..c.ni |-> [k \in 1..(c.L - 1 + c.b) |-> 0]]
\* ---- filters
FBad(c, idx, n) == idx >= c.maxF \/ n > c.L
\* a transition starts at the previous target; without a transition the position of the running one is kept
Move(s, ir, start) == [cur |-> ir, old |-> s.cur, el |-> IF start THEN 0 ELSE s.el]
SetF(c, s, idx, ir, start) == CASE c.kind = "mc" -> [s EXCEPT !.slot[idx + 1].cur = ir]
                                [] c.kind = "xf" -> [s EXCEPT !.slot[idx + 1] = Move(@, ir, start)]
                                [] c.kind = "ip" -> [s EXCEPT !.store[idx + 1] = ir]
AllF(c, s, irs) == IF c.kind = "ip" THEN [s EXCEPT !.store = [k \in 1..c.maxF |-> IF k <= Len(irs) THEN irs[k] ELSE <<>>]]
                   ELSE [s EXCEPT !.slot = [k \in 1..c.maxF |-> IF k <= Len(irs) THEN [cur |-> irs[k], old |-> <<>>, el |-> Done] ELSE Silent]]
Mute(s) == [s EXCEPT !.slot = [k \in DOMAIN s.slot |-> [cur |-> <<>>, old |-> <<>>, el |-> s.slot[k].el]]]
ClearF(c, s) == IF c.kind = "ip" THEN [Mute(s) EXCEPT !.store = [k \in 1..c.maxF |-> <<>>]] ELSE Mute(s)
AllFBad(c, irs) == Len(irs) > c.maxF \/ \E k \in 1..Len(irs) : Len(irs[k]) > c.L
\* a refused new set of filters keeps the old ones or leaves none
AllFRefused(c, s) == {s} \union (IF c.kind = "ip" THEN {} ELSE {Mute(s)})
\* ---- interpolants: weighted sums of stored filters
At(f, k) == IF k <= Len(f) THEN f[k] ELSE 0
RECURSIVE Mix(_, _, _, _, _)
Mix(s, idx, w, j, k) == IF j = 0 THEN 0 ELSE w[j] * At(s.store[idx[j] + 1], k) + Mix(s, idx, w, j - 1, k)
IBad(c, id, idx) == id >= c.maxR \/ Len(idx) # c.nint \/ \E j \in 1..Len(idx) : idx[j] >= c.maxF
SetI(c, s, id, idx, w, start) == LET f == TLCEval([k \in 1..c.L |-> Mix(s, idx, w, Len(idx), k)])
                                 IN [s EXCEPT !.slot[id + 1] = Move(@, f, start)]
\* ---- routings
RBad(c, s, e) == e.i >= c.ni \/ e.o >= c.no \/ e.f >= NSlots(c) \/ (<<e.o, e.i>> \notin DOMAIN s.rt /\ Cardinality(DOMAIN s.rt) >= c.maxR)
SetR(s, e) == [s EXCEPT !.rt = (<<e.o, e.i>> :> <<e.f, e.g>>) @@ s.rt]
DelR(s, i, o) == [s EXCEPT !.rt = [x \in (DOMAIN s.rt) \ {<<o, i>>} |-> s.rt[x]]]
NoR(s) == [s EXCEPT !.rt = [x \in {} |-> <<0, 0>>]]
RECURSIVE AddR(_, _, _)
\* <<accepted, state after the entries up to the first refused one>>
AddR(c, s, es) == IF es = <<>> THEN <<TRUE, s>> ELSE IF RBad(c, s, Head(es)) THEN <<FALSE, s>> ELSE AddR(c, SetR(s, Head(es)), Tail(es))
AllROk(c, s, es) == AddR(c, NoR(s), es)[1]
AllR(c, s, es) == AddR(c, NoR(s), es)[2]
\* a refused new table keeps the old one or leaves some of the new entries
AllRRefused(c, s, es) == {s} \union {[s EXCEPT !.rt = AddR(c, NoR(s), SubSeq(es, 1, k))[2].rt] : k \in 0..Len(es)}
\* ---- output
RECURSIVE Dot(_, _, _, _)
Dot(f, h, p, k) == IF k = 0 THEN 0 ELSE f[k] * h[p - k] + Dot(f, h, p, k - 1)
Filtered(c, f, h, n) == Dot(f, h, c.L + n, Len(f))                      \* sample n (1..b) of the newest block
Weight(s, n) == IF s.el >= TT THEN TT ELSE IF cfg.T = 0 THEN 1 ELSE Min(s.el + n, TT)
Term(s, h, n) == LET w == Weight(s, n) IN w * Filtered(cfg, s.cur, h, n) + (IF w = TT THEN 0 ELSE (TT - w) * Filtered(cfg, s.old, h, n))
RECURSIVE Sum(_, _)
Sum(f, S) == IF S = {} THEN 0 ELSE LET x == CHOOSE x \in S : TRUE IN f[x] + Sum(f, S \ {x})
\* in units of 1 / (4 TT) ("mc", "xf") or 1 / (16 TT) ("ip")
Output(s, h, o, n) == LET S == {x \in DOMAIN s.rt : x[1] = o - 1}
                      IN Sum([x \in S |-> s.rt[x][2] * Term(s.slot[s.rt[x][1] + 1], h[x[2] + 1], n)], S)
Shift(h, x) == [i \in DOMAIN h |-> SubSeq(h[i] \o x[i], Len(x[i]) + 1, Len(h[i]) + Len(x[i]))]
Advance(c, s) == [s EXCEPT !.slot = [k \in DOMAIN s.slot |-> [s.slot[k] EXCEPT !.el = IF @ >= TT THEN Done ELSE @ + c.b]]]
Exact(c, s, h, y) == \A o \in 1..c.no : \A n \in 1..c.b : y[o][n] = Output(s, h, o, n)
\* ---- control messages of the components, applied before a block: <<accepted, state, rest of the queue>>
RECURSIVE ApplyF(_, _, _)
ApplyF(c, s, m) == IF m = <<>> THEN <<TRUE, s, m>>
                   ELSE IF FBad(c, m[1].idx, Len(m[1].ir)) THEN <<FALSE, s, Tail(m)>>
                   ELSE ApplyF(c, TLCEval(SetF(c, s, m[1].idx, m[1].ir, TRUE)), Tail(m))
RECURSIVE ApplyI(_, _, _)
ApplyI(c, s, m) == IF m = <<>> THEN <<TRUE, s, m>>
                   ELSE IF IBad(c, m[1].id, m[1].ix) THEN <<FALSE, s, Tail(m)>>
                   ELSE ApplyI(c, TLCEval(SetI(c, s, m[1].id, m[1].ix, m[1].w, TRUE)), Tail(m))
RECURSIVE ApplyR(_, _, _)
ApplyR(c, s, m) == IF m = <<>> THEN <<TRUE, s, m>>
                   ELSE IF RBad(c, s, m[1]) THEN <<FALSE, s, Tail(m)>>
                   ELSE ApplyR(c, TLCEval(SetR(s, m[1])), Tail(m))
\* the possible outcomes of taking the messages: {[ok, st, q]}
Take(c, s, p) ==
  LET f == ApplyF(c, s, p.f) IN
  IF ~f[1] THEN {[ok |-> FALSE, st |-> f[2], q |-> [p EXCEPT !.f = f[3]]]}
  ELSE LET A == IF p.a = <<>> THEN {<<TRUE, f[2]>>}
                ELSE IF AllROk(c, f[2], p.a[1]) THEN {<<TRUE, AllR(c, f[2], p.a[1])>>}
                ELSE {<<FALSE, x>> : x \in AllRRefused(c, f[2], p.a[1])}
       IN UNION {IF ~a[1] THEN {[ok |-> FALSE, st |-> a[2], q |-> [p EXCEPT !.f = <<>>, !.a = <<>>]]}
                 ELSE LET r == ApplyR(c, a[2], p.r) IN
                      IF ~r[1] THEN {[ok |-> FALSE, st |-> r[2], q |-> [p EXCEPT !.f = <<>>, !.a = <<>>, !.r = r[3]]]}
                      ELSE LET i == ApplyI(c, r[2], p.i) IN {[ok |-> i[1], st |-> i[2], q |-> [NoQ EXCEPT !.i = i[3]]]} : a \in A}
=============================================================================
