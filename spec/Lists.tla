-------------------------------- MODULE Lists --------------------------------
(* Index and value list expressions: comma separated items, each a single value or a range start:end or
   start:step:end with inclusive end; blanks may surround the numbers.  Texts are sequences of character codes.
   Values of float expressions are counted in units of 1/Unit.  Also channel ranges (exclusive end) and lists. *)
EXTENDS Integers, Sequences, FiniteSets
Unit == 8
Err == <<-2000000000>>          \* result of a text that is no expression
Comma == 44  Colon == 58  Minus == 45  Plus == 43  Dot == 46
Blank(c) == c \in {32, 9, 10, 11, 12, 13}
Digit(c) == c \in 48..57

RECURSIVE SplitAt(_, _, _)
SplitAt(t, sep, i) == \* pieces of t from position i on
  LET js == {j \in i..Len(t) : t[j] = sep} IN
  IF js = {} THEN <<SubSeq(t, i, Len(t))>>
  ELSE LET j == CHOOSE j \in js : \A k \in js : j <= k IN <<SubSeq(t, i, j - 1)>> \o SplitAt(t, sep, j + 1)
RECURSIVE Trim(_)
Trim(t) == IF t = <<>> THEN t ELSE IF Blank(t[1]) THEN Trim(Tail(t))
           ELSE IF Blank(t[Len(t)]) THEN Trim(SubSeq(t, 1, Len(t) - 1)) ELSE t
RECURSIVE Nat10(_, _)
Nat10(t, acc) == IF t = <<>> THEN acc ELSE Nat10(Tail(t), acc * 10 + (t[1] - 48))
AllDigits(t) == \A i \in 1..Len(t) : Digit(t[i])
Sign(t) == IF t # <<>> /\ t[1] = Minus THEN -1 ELSE 1
Unsigned(t) == IF t # <<>> /\ t[1] \in {Minus, Plus} THEN Tail(t) ELSE t
\* leading zeros carry no meaning; more than nine digits are beyond the range considered here
RECURSIVE Strip(_)
Strip(t) == IF Len(t) > 1 /\ t[1] = 48 THEN Strip(Tail(t)) ELSE t

\* a number token: <<TRUE, value>> or <<FALSE>>
IntTok(t) == LET u == Unsigned(t) IN
  IF u = <<>> \/ ~AllDigits(u) \/ Len(Strip(u)) > 9 THEN <<FALSE>> ELSE <<TRUE, Sign(t) * Nat10(Strip(u), 0)>>
RECURSIVE Pow10(_)
Pow10(k) == IF k = 0 THEN 1 ELSE 10 * Pow10(k - 1)
FltTok(t) == LET u == Unsigned(t) p == SplitAt(u, Dot, 1) IN
  IF Len(p) > 2 \/ \E i \in 1..Len(p) : ~AllDigits(p[i]) THEN <<FALSE>>
  ELSE IF Len(p) = 1 THEN IF u = <<>> \/ Len(Strip(u)) > 7 THEN <<FALSE>> ELSE <<TRUE, Sign(t) * Unit * Nat10(Strip(u), 0)>>
  ELSE IF p[1] = <<>> /\ p[2] = <<>> THEN <<FALSE>>
  ELSE <<TRUE, Sign(t) * (Unit * Nat10(p[1], 0) + (Unit * Nat10(p[2], 0)) \div Pow10(Len(p[2])))>>

RangeUp(a, s, b) == [i \in 1..(IF b < a THEN 0 ELSE (b - a) \div s + 1) |-> a + (i - 1) * s]
Range(a, s, b) == IF s > 0 THEN RangeUp(a, s, b) ELSE [i \in 1..(IF b > a THEN 0 ELSE (a - b) \div (-s) + 1) |-> a + (i - 1) * s]
\* one item; float: is this a value list
Item(v, float) ==
  CASE Len(v) = 1 -> IF ~float /\ v[1] < 0 THEN Err ELSE <<v[1]>>
    [] Len(v) = 2 -> IF ~float /\ (v[1] < 0 \/ v[2] < 0) THEN Err ELSE Range(v[1], IF float THEN Unit ELSE 1, v[2])
    [] Len(v) = 3 -> IF v[2] = 0 \/ (~float /\ (v[1] < 0 \/ v[3] < 0)) THEN Err ELSE Range(v[1], v[2], v[3])
    [] OTHER -> Err
RECURSIVE Concat(_)
Concat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Concat(Tail(ss))
Expand(t, float) ==
  IF Trim(t) = <<>> THEN IF float THEN Err ELSE <<>>
  ELSE LET items == SplitAt(t, Comma, 1)
           toks == [i \in 1..Len(items) |-> SplitAt(items[i], Colon, 1)]
           vals == [i \in 1..Len(items) |-> [j \in 1..Len(toks[i]) |-> IF float THEN FltTok(Trim(toks[i][j])) ELSE IntTok(Trim(toks[i][j]))]]
       IN IF \E i \in 1..Len(items) : \E j \in 1..Len(toks[i]) : ~vals[i][j][1] THEN Err
          ELSE LET ex == [i \in 1..Len(items) |-> Item([j \in 1..Len(toks[i]) |-> vals[i][j][2]], float)]
               IN IF \E i \in 1..Len(items) : ex[i] = Err THEN Err ELSE Concat(ex)

\* channel ranges: the end is not included
CRValid(a, b, s) == s # 0 /\ (IF s > 0 THEN b >= a ELSE b <= a)
CRange(a, b, s) == IF s > 0 THEN [i \in 1..((b - a + s - 1) \div s) |-> a + (i - 1) * s]
                   ELSE [i \in 1..((a - b - s - 1) \div (-s)) |-> a + (i - 1) * s]
=============================================================================
