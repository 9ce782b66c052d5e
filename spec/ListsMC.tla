------------------------------- MODULE ListsMC -------------------------------
(* Generates every text up to a length bound over the alphabet and checks what the grammar promises. *)
EXTENDS Lists, TLC, Json
CONSTANTS MaxLen, Float, Log
Alphabet == IF Float THEN {32, 44, 58, 45, 46, 48, 50, 53} ELSE {32, 44, 58, 45, 43, 48, 49, 51}
VARIABLE t
MCInit == t = <<>>
MCNext == Len(t) < MaxLen /\ \E c \in Alphabet : t' = Append(t, c)
MCSpec == MCInit /\ [][MCNext]_t
X == Expand(t, Float)
\* blanks around a text do not matter; accepted texts concatenate with a comma; indices are never negative
Blanks == Expand(<<32>> \o t, Float) = X /\ Expand(t \o <<32>>, Float) = X
Joined == X # Err /\ Trim(t) # <<>> => Expand(t \o <<44>> \o t, Float) = X \o X
NonNegative == ~Float /\ X # Err => \A i \in 1..Len(X) : X[i] >= 0
Trailing == Trim(t) # <<>> => Expand(t \o <<44>>, Float) = Err /\ Expand(t \o <<58>>, Float) = Err /\ Expand(<<44>> \o t, Float) = Err
Emit == Log => PrintT("@@" \o ToJson(t))
\* channel ranges
RangeOk == \A a \in 0..6, b \in 0..6, s \in {-3, -2, -1, 1, 2, 3} : CRValid(a, b, s) =>
   LET r == CRange(a, b, s) IN
     /\ \A i \in 1..Len(r) : IF s > 0 THEN r[i] < b ELSE r[i] > b
     /\ (IF s > 0 THEN a + Len(r) * s >= b ELSE a + Len(r) * s <= b)
=============================================================================
