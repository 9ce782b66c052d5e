------------------------------- MODULE IirMC -------------------------------
(* The state form of a cascade of two sections equals the difference equations applied to the complete stream, however
   the stream is cut into blocks, also if a change replaces coefficients by the same ones. *)
EXTENDS Iir
CONSTANTS MaxLen, Values
Coefs == {Flat, <<1, 2, 0, -1, 1>>, <<0, 1, -1, 2, 1>>, <<2, -1, 3, 0, -1>>, <<1, 1, 1, -2, 3>>}
VARIABLES xs, ys
mv == <<co, zs, fir, xs, ys>>
MCInit == /\ co \in {<<<<a, b>>>> : a \in Coefs, b \in Coefs} /\ zs = All(1, 2, Rest) /\ xs = <<>> /\ ys = <<>>
          /\ fir = [n |-> 1, len |-> 3, up |-> 2, ir |-> <<<<1, -2, 3>>>>, hist |-> <<>>]
RECURSIVE Strings(_)
Strings(k) == IF k = 0 THEN {<<>>} ELSE {Append(s, x) : s \in Strings(k - 1), x \in Values}
MCNext == \E k \in 1..3 : \E x \in Strings(k) : Len(xs) + k <= MaxLen /\ xs' = xs \o x /\ UNCHANGED co
            /\ LET r == Filter(co[1], zs[1], x) IN ys' = ys \o r[1] /\ zs' = <<r[2]>>
            /\ fir' = [fir EXCEPT !.hist = Extend(@, x)]
MCSpec == MCInit /\ [][MCNext]_mv
X(s, n) == IF n < 1 THEN 0 ELSE s[n]
RECURSIVE Direct(_, _, _)
Direct(c, x, y) == LET n == Len(y) + 1 IN IF n > Len(x) THEN y
                   ELSE Direct(c, x, Append(y, c[1] * x[n] + c[2] * X(x, n - 1) + c[3] * X(x, n - 2) - c[4] * X(y, n - 1) - c[5] * X(y, n - 2)))
DifferenceEquation == ys = Direct(co[1][2], Direct(co[1][1], xs, <<>>), <<>>)
FirDirect == xs = fir.hist /\ \A n \in 1..Len(xs) : FirOut(fir, SubSeq(xs, 1, n), 1, 1, 1) = X(xs, n) - 2 * X(xs, n - 2) + 3 * X(xs, n - 4)
=============================================================================
