----------------------------- MODULE PanningMC -----------------------------
\* Laws of the gains on small grids: they reproduce the direction of the source, name a unique triplet inside a closed array, scale with the source,
\* give a loudspeaker's own direction to it alone, and do not depend on the order of the triplets or of their corners.
EXTENDS Panning, TLC
CONSTANT R
Oct == [d2 |-> FALSE, n |-> 6, rer |-> <<>>, pos |-> <<<<3, 0, 0>>, <<0, 3, 1>>, <<-3, 0, 0>>, <<0, -3, 0>>, <<0, 1, 4>>, <<0, 0, -5>>>>,
        tri |-> <<<<1, 2, 5>>, <<2, 3, 5>>, <<3, 4, 5>>, <<4, 1, 5>>, <<1, 2, 6>>, <<2, 3, 6>>, <<3, 4, 6>>, <<4, 1, 6>>>>]
Turned == [Oct EXCEPT !.tri = [i \in 1..8 |-> LET t == Oct.tri[9 - i] IN <<t[2], t[3], t[1]>>]]
Ring == [d2 |-> TRUE, n |-> 4, rer |-> <<>>, pos |-> <<<<4, 1, 0>>, <<0, 3, 0>>, <<-4, 0, 0>>, <<0, -3, 0>>>>, tri |-> <<<<1, 2>>, <<2, 3>>, <<3, 4>>, <<4, 1>>>>]
Virt == [Oct EXCEPT !.n = 5, !.rer = <<<<500, 0, 500, 250, 0>>>>]
Lis == {<<0, 0, 0>>, <<1, 0, 1>>}
Grid == (0 - R)..R
VARIABLES p, lis
Init == p = <<0 - R, 0 - R, 0 - R>> /\ lis \in Lis /\ arr = <<>> /\ pan = <<>> /\ rad = <<>> /\ hoa = <<>>
Next == \E k \in 1..3: p[k] < R /\ p' = [p EXCEPT ![k] = @ + 1] /\ UNCHANGED <<lis, vars>>
Spec == Init /\ [][Next]_<<p, lis, vars>>
Inner == p # lis
Gains(a) == LET ch == Choices(a, lis, p, FALSE) IN Raw(a, ch, CHOOSE j \in ch.t: TRUE)
\* |sum of gain times unit vector - source| small (in 1/1000)
Reproduces(a) == LET g == Gains(a)  s == Source(a, lis, p, FALSE) IN
   \A k \in 1..(IF a.d2 THEN 2 ELSE 3): Abs(Sum([i \in 1..Len(a.pos) |-> LET v == Rel(a, lis, i) IN Div(g[i] * v[k] * 1000, Norm(v))]) - 1000 * s[k]) <= 12
Direction == Inner => Reproduces(Oct) /\ (<<p[1], p[2]>> # <<lis[1], lis[2]>> => Reproduces(Ring))
NonNegative == Inner => \A i \in 1..6: Gains(Oct)[i] >= 0
OneChoice == Inner => LET ch == Choices(Oct, lis, p, FALSE) IN ch.t # {} /\ ~ch.refused /\ \A j \in ch.t: Close(Raw(Oct, ch, j), Gains(Oct), 2)
OrderFree == Inner => Close(Gains(Oct), Gains(Turned), 2)
Own == \A i \in 1..6: p = Oct.pos[i] => \A j \in 1..6: (Gains(Oct)[j] # 0) = (i = j)
PlaneHeight == LET c == Choices(Ring, lis, p, FALSE)  f == Choices(Ring, <<lis[1], lis[2], 7>>, p, FALSE) IN c.t = f.t /\ c.q = f.q
Moved == Choices(Oct, lis, <<p[1] + lis[1], p[2] + lis[2], p[3] + lis[3]>>, FALSE).q = Choices(Oct, lis, p, TRUE).q
Unit == Inner => LET ch == Choices(Virt, lis, p, FALSE)  w == Routed(Virt, ch, CHOOSE j \in ch.t: TRUE) IN Energy(w) >= 100 => Abs(Energy(Normalised(w)) - 1000) <= 3
=============================================================================
