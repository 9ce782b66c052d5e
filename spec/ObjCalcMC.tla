----------------------------- MODULE ObjCalcMC -----------------------------
\* Laws of the calculators on a small array: unit norms, split into direct and diffuse part, exclusive routings, independence of the order of objects and of a common shift.
EXTENDS ObjCalc, TLC
CONSTANTS K, R
A == [d2 |-> FALSE, n |-> 5, rer |-> <<<<500, 0, 500, 0, 0>>>>, ids |-> <<"a", "b", "c", "d", "e", "v">>, pos |-> <<<<3, 0, 0>>, <<0, 3, 1>>, <<-3, 0, 0>>, <<0, -3, 0>>, <<0, 1, 4>>, <<0, 0, -5>>>>,
      tri |-> <<<<1, 2, 5>>, <<2, 3, 5>>, <<3, 4, 5>>, <<4, 1, 5>>, <<1, 2, 6>>, <<2, 3, 6>>, <<3, 4, 6>>, <<4, 1, 6>>>>]
Shift == <<2, 1, -1>>
Add(p, q) == [i \in 1..3 |-> p[i] + q[i]]
B == [A EXCEPT !.pos = [i \in 1..6 |-> Add(A.pos[i], Shift)]]
Obj(t, d, c, p, o) == [t |-> t, lev |-> 500, d |-> d, c |-> c, p |-> p, o |-> o, q |-> <<>>]
Objs == {Obj("psd", d, <<c>>, p, <<>>) : d \in {0, 375, 1000}, c \in {0, 1, 3}, p \in {<<4, 1, 1>>, <<0, 3, 1>>, <<-2, -2, -1>>}}
        \union {Obj("pt", 0, <<2>>, <<1, 2, 3>>, <<>>), Obj("diff", 0, <<1>>, <<>>, <<>>), Obj("pw", 0, <<0>>, <<1, 0, 3>>, <<>>), Obj("hoa", 0, <<0>>, <<>>, <<>>)}
        \union {Obj("chan", d, <<0, 2>>, <<>>, <<<<"c">>, ls>>) : d \in {0, 250}, ls \in {<<"c">>, <<"a", "d">>, <<"x">>, <<"v">>, <<>>}}
N == 3
Init == /\ arr = <<>> /\ pan = <<>> /\ rad = <<>> /\ hoa = <<>> /\ out = <<>> /\ pend = FALSE
        /\ cmp \in {[kind |-> "pc", n |-> N, x |-> <<m, v, 0, 0, 0, 0, 0, 0>>] : m \in {3, 7}, v \in {0, 1, 2}} /\ ov = <<>> /\ at = <<0, 0, 0>>
Next == /\ UNCHANGED <<vars, cmp, out, pend>>
        /\ \/ Len(ov) < K /\ at' = at /\ \E o \in Objs: ov' = Append(ov, o)
           \/ ov' = ov /\ \E k \in 1..3: at[k] < R /\ at' = [at EXCEPT ![k] = @ + 1]
Spec == Init /\ [][Next]_<<vars, ovars>>
\* the columns the specification computes for object o (first choice of the triplet)
Cols(a, lis, o, k) ==
  LET nf == Norms(cmp.x)  d == Spread(o)  E == Scaled(Unit(All(a.n, 1000), nf.df), d) IN
  CASE o.t = "chan" -> LET b == Labelled(a, o.o[k]) IN [lf |-> Scaled(Unit(b, nf.lf), 1000 - d), hf |-> Scaled(Unit(b, nf.hf), 1000 - d), df |-> Scaled(Unit(b, nf.df), d)]
    [] o.t = "diff" -> [lf |-> All(a.n, 0), hf |-> All(a.n, 0), df |-> Unit(All(a.n, 1000), nf.df)]
    [] OTHER -> LET pw == o.t = "pw"  ch == Choices(a, lis, IF pw THEN Cartesian(o.p) ELSE o.p, pw)  w == Routed(a, ch, CHOOSE j \in ch.t: TRUE) IN
                [lf |-> Scaled(Unit(w, nf.lf), 1000 - d), hf |-> Scaled(Unit(Roots(w), nf.hf), 1000 - d), df |-> E]
Last == ov[Len(ov)]
Mine == ov # <<>> /\ Panned(Last)
C == Cols(A, at, Last, 1)
Consistent == Mine => ColumnsOk(cmp, A, at, Last, 1, C.lf, C.hf, C.df)
Levels == Mine /\ ~Zero(C.lf) => LET d == Spread(Last) IN Abs(Amount(C.lf, Norms(cmp.x).lf) - (1000 - d)) <= 6 /\ Abs(Amount(C.hf, "en") - (1000 - d)) <= 6
Diffuse == Mine /\ ~Zero(C.df) => LET d == IF Last.t = "diff" THEN 1000 ELSE Spread(Last) IN Abs(Energy(C.df) - d) <= 6
Shifted == Mine /\ Last.t \in Points => LET S == Cols(B, Add(at, Shift), [Last EXCEPT !.p = Add(@, Shift)], 1) IN Close(S.lf, C.lf, 1) /\ Close(S.hf, C.hf, 1)
\* a plane wave is panned like a point in its direction as seen by the listener
Wave == Mine /\ Last.t = "pw" => C = Cols(A, at, [Last EXCEPT !.t = "pt", !.p = Add(Cartesian(Last.p), at)], 1)
Exclusive == \A h \in 0..N - 1: LET W == Writers(ov, h) IN \A w \in W: h = ov[w[1]].c[w[2]]
Routings == LET D == Wanted(cmp, A, ov) IN (\A x \in D: x[1] < N /\ x[2] < A.n) /\ (ov # <<>> /\ Last.t # "chan" => D = Wanted(cmp, A, SubSeq(ov, 1, Len(ov) - 1)))
Nearest == LET m == Farthest(A, at) IN m > 0 /\ \A i \in 1..A.n: Distance(A, at, i) = Distance(B, Add(at, Shift), i)
\* the diffuse gains never depend on the listener, and levels are refused for an object exactly if they are refused for a vector with it
Refusal == ov # <<>> => LET c == [n |-> N, x |-> <<0>>] IN LevelsRefused(c, ov) = (LevelsRefused(c, <<Last>>) \/ LevelsRefused(c, SubSeq(ov, 1, Len(ov) - 1)))
=============================================================================
