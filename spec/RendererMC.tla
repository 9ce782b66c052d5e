----------------------------- MODULE RendererMC -----------------------------
\* Laws of the renderer model on a small array: sums agree with the single samples, signals superpose, delays shift, energy is kept, wave fronts reach the listener together.
EXTENDS Renderer, TLC
CONSTANTS R
A == [d2 |-> FALSE, n |-> 5, rer |-> <<<<500, 0, 500, 0, 0>>>>, ids |-> <<"a", "b", "c", "d", "e">>, pos |-> <<<<3, 0, 0>>, <<0, 3, 1>>, <<-3, 0, 0>>, <<0, -3, 0>>, <<0, 1, 4>>, <<0, 0, -5>>>>,
      tri |-> <<<<1, 2, 5>>, <<2, 3, 5>>, <<3, 4, 5>>, <<4, 1, 5>>, <<1, 2, 6>>, <<2, 3, 6>>, <<3, 4, 6>>, <<4, 1, 6>>>>,
      och |-> <<2, 3, 5, 6, 7, 1>>, g |-> <<1000, 1000, 500, 1000, 1000, 2000>>, y |-> <<0, 3, 0, 0, 5, 1>>, sw |-> <<<<250, 0, 500, 0, -1000>>>>, eq |-> <<>>]
Obj(t, d, c, p, o) == [t |-> t, lev |-> 500, d |-> d, c |-> c, p |-> p, o |-> o, q |-> <<>>, e |-> <<>>]
Scenes == {<<Obj("psd", d, <<0>>, p, <<>>)>> : d \in {0, 375, 1000}, p \in {<<4, 1, 1>>, <<-2, -2, -1>>}}
          \union {<<Obj("psd", d, <<0>>, p, <<>>), Obj("chan", 250, <<2, 1>>, <<>>, <<<<"c">>, <<"a", "d">>>>)>> : d \in {0, 375}, p \in {<<4, 1, 1>>, <<0, 3, 1>>}}
          \union {<<Obj("diff", 0, <<1>>, <<>>, <<>>), Obj("pw", 0, <<0>>, <<1, 0, 3>>, <<>>)>>}
Stimuli == {<<<<0, 4, 2>>>>, <<<<1, 0, 3>>, <<0, 5, -1>>>>, <<<<2, 1, 1>>, <<0, 2, 2>>, <<1, 3, -2>>>>}
Cfgs == {[nin |-> 3, nout |-> n, track |-> tr, ns |-> 0, fd |-> FALSE, flt |-> f] : n \in {6, 8}, tr \in BOOLEAN, f \in {<<>>, <<<<8, 0, 0>>, <<4, 4, 0>>, <<0, 8, 0>>, <<-8, 1, 0>>, <<0, 0, 2>>>>}}
Init == /\ arr = <<>> /\ pan = <<>> /\ rad = <<>> /\ hoa = <<>> /\ pend = FALSE
        /\ cmp \in Cfgs /\ ov \in Scenes /\ out \in Stimuli /\ at = <<0, 0, 0>>
Next == /\ UNCHANGED <<vars, cmp, ov, out, pend>> /\ \E k \in 1..3: at[k] < R /\ at' = [at EXCEPT ![k] = @ + 1]
Spec == Init /\ [][Next]_<<vars, ovars>>
Agree(P, K) == \A w \in 0..1: LET E == Sums(cmp, A, P, K, out, w) IN \A i \in 1..Outs(A):
  LET S == Times(cmp, A, K, out, i)  V == TLCEval([t \in S |-> Value(cmp, A, P, K, out, i, t)]) IN
  Abs(E[i].v - SumOver(S, [t \in S |-> Sg(w, t) * V[t].v])) <= E[i].t + SumOver(S, [t \in S |-> V[t].t])
\* the response to a sequence of impulses is the sum of the responses to each
Superpose(P, K) == \A w \in 0..1: LET E == Sums(cmp, A, P, K, out, w)  S == TLCEval([s \in 1..Len(out) |-> Sums(cmp, A, P, K, <<out[s]>>, w)]) IN
  \A i \in 1..Outs(A): Abs(E[i].v - Sum([s \in 1..Len(out) |-> S[s][i].v])) <= 6 * Len(out)
\* delaying the stimulus delays the output
Later == [s \in 1..Len(out) |-> <<out[s][1], out[s][2] + 7, out[s][3]>>]
Delay(P, K) == \A i \in {1, 5, 6}: {t + 7 : t \in Times(cmp, A, K, out, i)} = Times(cmp, A, K, Later, i) /\ \A t \in Times(cmp, A, K, out, i): Value(cmp, A, P, K, out, i, t) = Value(cmp, A, P, K, Later, i, t + 7)
\* compensated loudspeakers are heard together and equally loud
Together(K) == cmp.track => \A i, j \in 1..A.n: /\ Abs(1000 * (K[i].y - K[j].y) + 16 * (Distance(A, at, i) - Distance(A, at, j))) <= 1001
                                             /\ Abs(K[i].g * Distance(A, at, j) - K[j].g * Distance(A, at, i)) <= Distance(A, at, i) + Distance(A, at, j)
Laws == LET P == Paths(cmp, A, at, ov)  K == Comp(cmp, A, at) IN Together(K) /\ (Specified(P) => Agree(P, K) /\ Superpose(P, K) /\ Delay(P, K))
\* accepted exactly if all loudspeakers have an output channel
Range6 == Accepts(cmp, A) <=> cmp.nout >= 7
=============================================================================
