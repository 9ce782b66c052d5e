-------------------------------- MODULE Pose --------------------------------
(* Rotations as integer quaternions <<w, x, y, z>> up to a factor: the rotation meant is that of the quaternion divided by its length.
   And the position decoder of head tracking messages, which publishes per block the message it prefers. *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Abs(x) == IF x < 0 THEN -x ELSE x
Min2(x, y) == IF x < y THEN x ELSE y
Dot(a, b) == IF Len(a) = 3 THEN a[1] * b[1] + a[2] * b[2] + a[3] * b[3] ELSE a[1] * b[1] + a[2] * b[2] + a[3] * b[3] + a[4] * b[4]
N2(a) == Dot(a, a)
Add(a, b) == [i \in DOMAIN a |-> a[i] + b[i]]
Sub(a, b) == [i \in DOMAIN a |-> a[i] - b[i]]
Scale(k, a) == [i \in DOMAIN a |-> k * a[i]]
One == <<1, 0, 0, 0>>
Conj(q) == <<q[1], -q[2], -q[3], -q[4]>>
Mul(a, b) == <<a[1] * b[1] - a[2] * b[2] - a[3] * b[3] - a[4] * b[4],
               a[1] * b[2] + a[2] * b[1] + a[3] * b[4] - a[4] * b[3],
               a[1] * b[3] - a[2] * b[4] + a[3] * b[1] + a[4] * b[2],
               a[1] * b[4] + a[2] * b[3] - a[3] * b[2] + a[4] * b[1]>>
\* the rotation matrix times N2(q), row by row
Mat(q) == LET w == q[1] x == q[2] y == q[3] z == q[4] IN
  <<<<w*w + x*x - y*y - z*z, 2*(x*y - w*z), 2*(x*z + w*y)>>,
    <<2*(x*y + w*z), w*w - x*x + y*y - z*z, 2*(y*z - w*x)>>,
    <<2*(x*z - w*y), 2*(y*z + w*x), w*w - x*x - y*y + z*z>>>>
Apply(m, v) == <<Dot(m[1], v), Dot(m[2], v), Dot(m[3], v)>>
\* half angles are given as <<cosine, sine>> up to a positive factor
Yaw(h) == <<h[1], 0, 0, h[2]>>
Pitch(h) == <<h[1], 0, h[2], 0>>
Roll(h) == <<h[1], h[2], 0, 0>>
Ypr(y, p, r) == Mul(Yaw(y), Mul(Pitch(p), Roll(r)))
\* about an axis of integer length n (the length matters only for angles other than multiples of 180 degrees)
Axis(v, n, h) == IF h[2] = 0 THEN One ELSE IF h[1] = 0 THEN <<0>> \o v ELSE <<h[1] * n, h[2] * v[1], h[2] * v[2], h[2] * v[3]>>
AxisOk(v, n, h) == h[1] = 0 \/ h[2] = 0 \/ n * n = N2(v)

\* observations are rounded: m in 1/10000, v in 1/1000
MatIs(m, q) == LET t == Mat(q) n == N2(q) IN \A i, j \in 1..3 : Abs(m[i][j] * n - 10000 * t[i][j]) <= 8 * n
PosIs(v, q, p, o) == LET t == Apply(Mat(q), p) n == N2(q) IN \A i \in 1..3 : Abs(v[i] * n - 1000 * (t[i] + n * o[i])) <= 3 * n

(* ---- messages: optional values are <<>> or <<value>> *)
Def(o, d) == IF o = <<>> THEN d ELSE o[1]
Ident == <<1, 0>>   \* half angle 0
FormOk(f) == CASE f.k = "q" -> \A i \in 1..4 : f.v[i] # <<>>
               [] f.k = "y" -> TRUE
               [] f.k = "r" -> (\A i \in 1..3 : f.v[i] # <<>>) /\ f.h # <<>> /\ \E i \in 1..3 : f.v[i][1] # 0
Rotation(f) == CASE f.k = "q" -> <<f.v[1][1], f.v[2][1], f.v[3][1], f.v[4][1]>>
                 [] f.k = "y" -> Ypr(Def(f.v[1], Ident), Def(f.v[2], Ident), Def(f.v[3], Ident))
                 [] f.k = "r" -> Axis(<<f.v[1][1], f.v[2][1], f.v[3][1]>>, f.n, f.h[1])
Valid(m) == m.json /\ Len(m.o) <= 1 /\ \A i \in DOMAIN m.o : FormOk(m.o[i])
\* what a valid message means; t, f and n are pairs <<rank, text>> as the numbers exceed the range of the model checker
Meaning(m) == [p |-> <<Def(m.p[1], 0), Def(m.p[2], 0), Def(m.p[3], 0)>>, q |-> IF m.o = <<>> THEN One ELSE Rotation(m.o[1]),
               t |-> Def(m.t, <<0, "0">>), f |-> Def(m.f, <<0, "0">>), n |-> Def(m.n, "1")]
Nothing == [p |-> <<0, 0, 0>>, q |-> One, t |-> <<0, "0">>, f |-> <<0, "0">>, n |-> "1"]

(* ---- the decoder *)
VARIABLES off, rot,  \* offset position and rotation
          queue,     \* messages of the current block
          pub,       \* meaning of the message last published, in the tracker's coordinates
          any, flag  \* has anything been published; unseen publication
dv == <<off, rot, queue, pub, any, flag>>
Better(a, b) == a.f[1] < b.f[1] \/ (a.f[1] = b.f[1] /\ a.t[1] >= b.t[1])   \* a is the later message
RECURSIVE Best(_, _)
Best(ms, b) == IF ms = <<>> THEN b
               ELSE LET m == Head(ms) IN
                    IF ~Valid(m) THEN Best(Tail(ms), b)
                    ELSE LET x == Meaning(m) IN Best(Tail(ms), IF b = <<>> THEN <<x>> ELSE IF Better(x, b[1]) THEN <<x>> ELSE b)
Start(o, r) == off' = o /\ rot' = r /\ queue' = <<>> /\ pub' = Nothing /\ any' = FALSE /\ flag' = FALSE
Receive(m) == queue' = Append(queue, m) /\ UNCHANGED <<off, rot, pub, any, flag>>
Process == LET b == Best(queue, <<>>) IN
           /\ queue' = <<>> /\ UNCHANGED <<off, rot>>
           /\ IF b = <<>> THEN UNCHANGED <<pub, any, flag>> ELSE pub' = b[1] /\ any' = TRUE /\ flag' = TRUE
See == flag' = FALSE /\ UNCHANGED <<off, rot, queue, pub, any>>
=============================================================================
