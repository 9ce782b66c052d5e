------------------------------- MODULE Params -------------------------------
(* Parameter containers held in named slots.  One record describes every class:
     mat  efl::BasicMatrix        mp  pml::MatrixParameter       tf  pml::TimeFrequencyParameter
     vec  efl::BasicVector        vp  pml::VectorParameter       sp  pml::StringParameter
   al: alignment in elements, r x c: rows and columns (vectors: one row; tf: frames*channels rows of bins; strings: one row of codes),
   ch, fr: channels and frames (tf only), v: rows.  Elements are opaque integers, 0 is zero; texts are sequences of codes. *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Slots == {"A", "B", "C"}
None == [cls |-> "-", el |-> "-", al |-> 0, r |-> 0, c |-> 0, ch |-> 0, fr |-> 0, v |-> <<>>, ok |-> TRUE]
IsMat(o) == o.cls \in {"mat", "mp"}
IsVec(o) == o.cls \in {"vec", "vp"}
Al(a) == IF a = 0 THEN 1 ELSE a
Const(r, c, x) == [i \in 1..r |-> [j \in 1..c |-> x]]
Zeros(r, c) == Const(r, c, 0)
Obj(cls, el, al, v, r, c) == [cls |-> cls, el |-> el, al |-> al, r |-> r, c |-> c, ch |-> 0, fr |-> 0, v |-> v, ok |-> TRUE]
TfObj(el, al, c, ch, fr, v) == [cls |-> "tf", el |-> el, al |-> al, r |-> fr * ch, c |-> c, ch |-> ch, fr |-> IF ch = 0 THEN 0 ELSE fr, v |-> v, ok |-> TRUE]
Text(t) == Obj("sp", "-", 0, <<t>>, 1, Len(t))
Same(a, b) == a.r = b.r /\ a.c = b.c
Rect(v, r, c) == Len(v) = r /\ \A i \in 1..Len(v) : Len(v[i]) = c
\* Operations on one object: <<result, object>>
Resize(o, x, y, z) == CASE o.cls = "tf" -> TfObj(o.el, o.al, x, y, z, Zeros(y * z, x))
                        [] IsMat(o) -> [o EXCEPT !.r = x, !.c = y, !.v = Zeros(x, y)]
                        [] IsVec(o) -> [o EXCEPT !.c = y, !.v = Zeros(1, y)]
Fill(o, x) == [o EXCEPT !.v = Const(o.r, o.c, x)]
In(o, i, j) == i \in 0..(o.r - 1) /\ j \in 0..(o.c - 1)
Set(o, i, j, x) == IF In(o, i, j) THEN <<"", [o EXCEPT !.v[i + 1][j + 1] = x]>> ELSE <<"ex", o>>
Row(o, i, v) == [o EXCEPT !.v[i + 1] = v]
Col(o, j, v) == [o EXCEPT !.v = [i \in 1..o.r |-> [o.v[i] EXCEPT ![j + 1] = v[i]]]]
\* Operations on two objects: <<result, first object, second object>>
Content(a, b) == [a EXCEPT !.r = b.r, !.c = b.c, !.ch = b.ch, !.fr = b.fr, !.v = b.v]
Emptied(b) == IF IsMat(b) THEN [b EXCEPT !.r = 0, !.c = 0, !.v = <<>>] ELSE [b EXCEPT !.c = 0, !.v = <<<<>>>>]
Two(k, a, b) ==
  CASE k = "swap" -> IF Same(a, b) /\ a.al = b.al THEN <<"", Content(a, b), Content(b, a)>> ELSE <<"ex", a, b>>
    [] k = "copy" -> IF Same(a, b) THEN <<"", Content(a, b), b>> ELSE <<"ex", a, b>>
    [] k = "vassign" -> <<"", Content(a, b), b>>
    [] k = "move" -> IF a.al = b.al THEN <<"", Content(a, b), Emptied(b)>> ELSE <<"ex", a, b>>
    [] k = "mctor" -> <<"", b, Emptied(b)>>
    [] k \in {"cctor", "clone"} -> <<"", b, b>>
    [] k \in {"assign", "base"} -> IF a.cls # b.cls \/ a.el # b.el THEN <<"ex", a, b>>
                                   ELSE IF a.cls \in {"tf", "sp"} \/ Same(a, b) THEN <<"", Content(a, b), b>> ELSE <<"ex", a, b>>
\* ---- configurations <<kind, fields..>>: 0 empty, 1 vector, 2 matrix, 3 time-frequency (bins, channels, frames), 4 interpolation
Fields(k) == CASE k[1] = 0 -> <<0>> [] k[1] \in {1, 4} -> <<k[1], k[2]>> [] k[1] = 2 -> <<2, k[2], k[3]>> [] k[1] = 3 -> k
Wanted(cls) == CASE cls = "sp" -> 0 [] cls = "vp" -> 1 [] cls = "mp" -> 2 [] cls = "tf" -> 3
FromConfig(cls, el, k, al) == CASE cls = "sp" -> Text(<<>>)
                                [] cls = "vp" -> Obj(cls, el, al, Zeros(1, k[2]), 1, k[2])
                                [] cls = "mp" -> Obj(cls, el, al, Zeros(k[2], k[3]), k[2], k[3])
                                [] cls = "tf" -> TfObj(el, al, k[2], k[3], k[4], Zeros(k[3] * k[4], k[2]))
\* ---- text: numbers separated by blanks and/or one comma; '%' starts a comment.  Values in units of 1/100.
Blank(c) == c \in {32, 9, 10, 11, 12, 13}
Digit(c) == c \in 48..57
At(t, i) == IF i <= Len(t) THEN t[i] ELSE 0
RECURSIVE Skip(_, _)
Skip(t, i) == IF i <= Len(t) /\ Blank(t[i]) THEN Skip(t, i + 1) ELSE i
RECURSIVE Digits(_, _)
Digits(t, i) == IF i <= Len(t) /\ Digit(t[i]) THEN Digits(t, i + 1) ELSE i   \* end of a run of digits
RECURSIVE Val(_, _, _, _)
Val(t, i, j, acc) == IF i >= j THEN acc ELSE Val(t, i + 1, j, 10 * acc + t[i] - 48)
RECURSIVE Pow10(_)
Pow10(k) == IF k <= 0 THEN 1 ELSE 10 * Pow10(k - 1)
\* a number at position i: <<next position, value>>, next = i if there is none
Number(t, i) ==
  LET s == IF At(t, i) \in {43, 45} THEN i + 1 ELSE i
      d == Digits(t, s)
      dot == At(t, d) = 46
      f == IF dot THEN Digits(t, d + 1) ELSE d
      some == d > s \/ (dot /\ f > d + 1)
      es == IF At(t, f) \in {69, 101} THEN (IF At(t, f + 1) \in {43, 45} THEN f + 2 ELSE f + 1) ELSE 0
      hasE == es > 0 /\ Digits(t, es) > es
      ex == IF ~hasE THEN 0 ELSE (IF At(t, f + 1) = 45 THEN -1 ELSE 1) * Val(t, es, Digits(t, es), 0)
      nf == IF dot THEN f - d - 1 ELSE 0
      m == Val(t, s, d, 0) * Pow10(nf) + (IF dot THEN Val(t, d + 1, f, 0) ELSE 0)
      sh == 2 + ex - nf
      x == IF sh >= 0 THEN m * Pow10(sh) ELSE m \div Pow10(-sh)
  IN IF ~some THEN <<i, 0>> ELSE <<IF hasE THEN Digits(t, es) ELSE f, IF At(t, i) = 45 THEN -x ELSE x>>
RECURSIVE Items(_, _, _)
Items(t, i, acc) ==  \* numbers from position i on: <<ok, numbers>>
  LET k == Skip(t, i) IN
  IF k > Len(t) \/ t[k] = 37 THEN <<TRUE, acc>>
  ELSE LET c == IF t[k] = 44 /\ acc # <<>> THEN Skip(t, k + 1) ELSE k
           n == Number(t, c)
       IN IF n[1] = c THEN <<FALSE, acc>> ELSE Items(t, n[1], Append(acc, n[2]))
ParseVec(t) == Items(t, 1, <<>>)
RECURSIVE Lines(_, _, _)
Lines(t, i, cur) == IF i > Len(t) THEN <<cur>> ELSE IF t[i] \in {10, 59} THEN <<cur>> \o Lines(t, i + 1, <<>>) ELSE Lines(t, i + 1, Append(cur, t[i]))
ParseMat(t) == \* <<ok, rows>>
  LET L == Lines(t, 1, <<>>)
      P == [k \in 1..Len(L) |-> ParseVec(L[k])]
      R == SelectSeq([k \in 1..Len(L) |-> P[k][2]], LAMBDA q : q # <<>>)
  IN <<(\A k \in 1..Len(L) : P[k][1]) /\ (\A k \in 1..Len(R) : Len(R[k]) = Len(R[1])), R>>
FromText(cls, el, al, t) == \* <<result, object>>
  IF cls = "vp" THEN LET p == TLCEval(ParseVec(t)) IN IF p[1] THEN <<"", Obj(cls, el, Al(al), <<p[2]>>, 1, Len(p[2]))>> ELSE <<"ex", None>>
  ELSE LET p == TLCEval(ParseMat(t)) IN IF p[1] THEN <<"", Obj(cls, el, Al(al), p[2], Len(p[2]), IF p[2] = <<>> THEN 0 ELSE Len(p[2][1]))>> ELSE <<"ex", None>>
=============================================================================
