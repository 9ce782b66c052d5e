------------------------------- MODULE PoseMC -------------------------------
(* Algebra: integer quaternions compose as their matrices do, and the rotation convention is the documented one.
   Decoder: an incremental selection as the implementation performs it picks what the definition (smallest face, then newest) demands. *)
EXTENDS Pose
CONSTANTS Range, Times, Faces, MaxMsgs
VARIABLES a, b, hist    \* hist: all messages of the current block
mv == <<dv, a, b, hist>>
Qs == {q \in (-Range..Range) \X (-Range..Range) \X (-Range..Range) \X (-Range..Range) : q # <<0, 0, 0, 0>>}
Msg(v, t, f) == [json |-> v, p |-> << <<t>>, <<f>>, <<>> >>, o |-> <<>>, t |-> << <<t, "t">> >>, f |-> << <<f, "f">> >>, n |-> <<>>]
MCInit == a \in Qs /\ b \in Qs /\ off = <<1, 2, 3>> /\ rot = a /\ queue = <<>> /\ pub = Nothing /\ any = FALSE /\ flag = FALSE /\ hist = <<>>
Same == UNCHANGED <<a, b>>
MCNext == \/ a = One /\ b = One /\ Len(queue) < MaxMsgs /\ \E v \in BOOLEAN, t \in Times, f \in Faces : Receive(Msg(v, t, f)) /\ Same /\ UNCHANGED hist
          \/ a = One /\ b = One /\ queue # <<>> /\ Process /\ hist' = queue /\ Same
MCSpec == MCInit /\ [][MCNext]_mv
Bounded == Len(hist) = 0
MatMul(m, k) == [i \in 1..3 |-> [j \in 1..3 |-> m[i][1] * k[1][j] + m[i][2] * k[2][j] + m[i][3] * k[3][j]]]
Compose == \A i, j \in 1..3 : Mat(Mul(a, b))[i][j] = MatMul(Mat(a), Mat(b))[i][j]
Norms == N2(Mul(a, b)) = N2(a) * N2(b)
Inverse == Mat(Mul(a, Conj(a))) = Mat(Scale(N2(a), One))
Sandwich == \A v \in {<<1, 0, 0>>, <<0, 1, 0>>, <<2, 3, -1>>} : Mul(Mul(a, <<0>> \o v), Conj(a)) = <<0>> \o Apply(Mat(a), v)
Isometry == LET t == Apply(Mat(a), <<1, 2, 3>>) IN N2(t) = 14 * N2(a) * N2(a)
Signs == Mat(a) = Mat(Scale(-1, a))
\* quarter turns: yaw takes x to y, pitch takes z to x, roll takes y to z; yaw is applied last
Convention == /\ Apply(Mat(Yaw(<<1, 1>>)), <<1, 0, 0>>) = <<0, 2, 0>> /\ Apply(Mat(Pitch(<<1, 1>>)), <<0, 0, 1>>) = <<2, 0, 0>>
              /\ Apply(Mat(Roll(<<1, 1>>)), <<0, 1, 0>>) = <<0, 0, 2>> /\ Apply(Mat(Ypr(<<1, 1>>, <<1, 0>>, <<1, 1>>)), <<0, 1, 0>>) = <<0, 0, 4>>
              /\ Mat(Ypr(<<1, 1>>, <<1, 1>>, <<1, 0>>))[3][1] = -4
Ok(ms) == {i \in 1..Len(ms) : Valid(ms[i])}
Chosen == hist # <<>> =>
  LET s == Ok(hist) IN
  IF s = {} THEN ~any
  ELSE any /\ flag /\ \E i \in s : /\ pub = Meaning(hist[i])
                                   /\ \A j \in s : Meaning(hist[j]).f[1] >= pub.f[1]
                                   /\ \A j \in s : Meaning(hist[j]).f[1] = pub.f[1] => (Meaning(hist[j]).t[1] < pub.t[1] \/ (Meaning(hist[j]).t[1] = pub.t[1] /\ j <= i))
=============================================================================
