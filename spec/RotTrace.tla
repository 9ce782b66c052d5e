------------------------------ MODULE RotTrace ------------------------------
(* Quaternions and positions: every operation on integer arguments, checked against the exact algebra of Pose. *)
EXTENDS Pose, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
T == Trace[l]
Is(e) == l <= Len(Trace) /\ T.e = e /\ l' = l + 1 /\ UNCHANGED dv
Init == off = <<0, 0, 0>> /\ rot = One /\ queue = <<>> /\ pub = Nothing /\ any = FALSE /\ flag = FALSE /\ l = 1
Holds(x) == x = TRUE
U == T.u V == T.v W == T.w
Root(x, n) == x >= 0 /\ Abs((x \div 1000) * (x \div 1000) - n) <= 2 * (x \div 1000) + 1 /\ x \div 10 <= 46000 /\ Abs((x \div 10) * (x \div 10) - 10000 * n) <= (x \div 5) + 60   \* x = 1000 sqrt(n)
NearVec(x, v, tol) == \A i \in DOMAIN v : Abs(x[i] - 1000 * v[i]) <= tol
Null(a) == \A i \in DOMAIN a : a[i] = 0
Ratio(q, v, k) == IF k = 0 THEN q = <<>> ELSE Len(q) = Len(v) /\ \A i \in DOMAIN v : Abs(q[i] * k - 1000 * v[i]) <= Abs(k)
TMul == Is("qmul") /\ T.y = Mul(U, V) /\ T.z = Mul(U, V) /\ T.t = Mul(U, V) /\ T.s = Mul(U, U)
Lin == /\ T.add = Add(U, V) /\ T.add2 = Add(U, V) /\ T.sub = Sub(U, V) /\ T.sub2 = Sub(U, V) /\ T.neg = Scale(-1, U)
       /\ T.k = Scale(W[1], U) /\ T.k2 = Scale(W[1], U) /\ T.d = Dot(U, V) /\ T.n = N2(U) /\ Root(T.l, N2(U)) /\ T.m = U /\ T.f = U /\ T.b = U /\ Ratio(T.q, U, W[1])
TQLin == Is("qlin") /\ Holds(Lin) /\ T.c = Conj(U) /\ T.c2 = Conj(U) /\ T.i = One /\ T.im = U
TPLin == /\ Is("plin") /\ Holds(Lin) /\ T.t = Add(U, V) /\ T.g = U /\ T.dd = Add(U, U) /\ T.i = <<0, 0, 0>>
         /\ IF Null(U) THEN T.r = "ex" /\ T.r2 = "ex" ELSE T.r = "" /\ T.r2 = "" /\ T.y = U /\ T.z = U
TNorm == /\ Is("qnorm") /\ T.x = U
         /\ IF Null(U) THEN T.r = "ex" /\ T.r2 = "ex" /\ T.r3 = "ex"
            ELSE LET w == IF W[1] = 1 /\ U[1] < 0 THEN Scale(-1, U) ELSE U IN T.r = "" /\ T.r2 = "" /\ T.r3 = "" /\ T.y = w /\ T.z = w /\ T.c = U
O3 == <<0, 0, 0>>
TRot == /\ Is("rot")
        /\ Holds(LET q == <<W[1] + 1, W[2], W[3], 1>> p == V t == W IN
             /\ PosIs(T.s, U, p, O3) /\ PosIs(T.s2, U, p, O3) /\ PosIs(T.g, U, p, t) /\ PosIs(T.g2, U, p, t)
             /\ PosIs(T.l[1].p, One, p, O3) /\ MatIs(T.l[1].m, U) /\ T.l[1].t = "0" /\ T.l[1].f = "0" /\ T.l[1].n = "1"
             /\ PosIs(T.l[2].p, q, p, O3) /\ MatIs(T.l[2].m, Mul(q, U)) /\ PosIs(T.l[3].p, q, p, O3) /\ MatIs(T.l[3].m, U)
             /\ PosIs(T.l[4].p, One, p, O3) /\ MatIs(T.l[4].m, Mul(q, U)) /\ PosIs(T.l[5].p, One, p, t) /\ MatIs(T.l[5].m, U)
             /\ PosIs(T.l[6].p, q, p, t) /\ MatIs(T.l[6].m, Mul(q, U)))
Steep(q) == 100 * Abs(Mat(q)[3][1]) > 98 * N2(q)
TConv == /\ Is("conv")
         /\ Holds(LET q == Ypr(<<U[1], U[2]>>, <<U[3], U[4]>>, <<U[5], U[6]>>) IN
              /\ MatIs(T.x, q) /\ MatIs(T.x2, q) /\ (\A i \in 1..3 : MatIs(T.l[i], q)) /\ (Steep(q) \/ (MatIs(T.b, q) /\ MatIs(T.l4, q)))
              \* the pitch is determined in every orientation: its sine is minus the third component of the rotated x axis
              /\ \A i \in 1..2 : Abs(T.sp[i] * N2(q) + 10000 * Mat(q)[3][1]) <= 8 * N2(q))
         /\ Abs(T.g[1]) <= 3142 /\ Abs(T.g[2]) <= 1571 /\ Abs(T.g[3]) <= 3142
\* the angle reported may differ by a full turn, with 0 and 2 pi the same
Turn(x, y) == Abs(x - y) <= 12 \/ Abs(Abs(x - y) - T.full) <= 12
TAxis == /\ Is("axis")
         /\ IF Null(U) THEN T.r = <<"ex", "ex", "ex", "ex">>
            ELSE /\ T.r = <<"", "", "", "">> /\ T.p = <<4000, 5000, 6000>>
                 /\ Holds(LET q == Axis(U, W[1], V) IN
                      /\ MatIs(T.x, q) /\ MatIs(T.x2, q) /\ MatIs(T.b, q) /\ MatIs(T.l, q) /\ MatIs(T.l2, q) /\ MatIs(T.l3, q)
                      /\ T.ang >= 0 /\ T.ang <= T.full
                      /\ IF V[2] = 0 THEN Turn(T.ang, 0)
                         ELSE ((Turn(T.ang, T.want) /\ NearVec(T.vec, U, 5 * W[2])) \/ (Turn(T.ang, T.full - T.want) /\ NearVec(T.vec, Scale(-1, U), 5 * W[2]))))
CosIs(x) == LET n == N2(U) * N2(V) c == 2 * Dot(U, V) * Dot(U, V) - n IN Abs(x) <= 10001 /\ Abs(x * n - 10000 * c) <= 3 * n
TQAng == /\ Is("qang")
         /\ IF Null(U) \/ Null(V) THEN T.r = "ex"
            ELSE /\ T.r = "" /\ T.g >= 0 /\ T.g <= 3142
                 /\ Holds(CosIs(T.c) /\ CosIs(T.c2))
TPAng == /\ Is("pang")
         /\ IF Null(U) \/ Null(V) THEN T.r = "ex" ELSE T.r = "" /\ T.g >= 0 /\ T.g <= 3142 /\ Abs(T.c - 1000 * Dot(U, V)) <= 10 /\ Abs(T.c2 - 1000 * Dot(U, V)) <= 10
\* spherical interpolation: constant angular velocity, ends and middle as expected; the length is that of unit quaternions or interpolated linearly
Slerp == /\ T.r = "" /\ Root(T.l1, N2(U)) /\ Root(T.l2, N2(V))
         /\ Abs(T.A * W[2] - W[1] * T.O) <= 4 * W[2] /\ Abs(T.B * W[2] - (W[2] - W[1]) * T.O) <= 4 * W[2]
         /\ Abs(T.len * W[2] - ((W[2] - W[1]) * T.l1 + W[1] * T.l2)) <= 3 * W[2]
         /\ W[1] = 0 => NearVec(T.y, U, 6)
         /\ W[1] = W[2] => NearVec(T.y, V, 6)
TSlerp == /\ Is("qslerp") /\ Holds(Slerp)
TPSlerp == /\ Is("pslerp") /\ IF Null(U) \/ Null(V) THEN T.r = "ex" ELSE Holds(Slerp)
TScn == Is("scn")
TNext == TScn \/ TMul \/ TQLin \/ TPLin \/ TNorm \/ TRot \/ TConv \/ TAxis \/ TQAng \/ TPAng \/ TSlerp \/ TPSlerp
TraceSpec == Init /\ [][TNext]_<<dv, l>>
TraceAccepted == LET d == TLCGet("stats").diameter IN d - 1 = Len(Trace) \/ (PrintT(<<"REJECTED_AT", d>>) /\ FALSE)
=============================================================================
