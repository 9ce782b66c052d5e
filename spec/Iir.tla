-------------------------------- MODULE Iir --------------------------------
(* Biquad filter bank (transposed direct form II per section, the state survives coefficient changes) and the FIR filter
   with one input and several outputs.  All numbers are integers. *)
EXTENDS Integers, Sequences, FiniteSets, TLC
VARIABLES co,   \* channel -> section -> <<b0, b1, b2, a1, a2>>
          zs,   \* channel -> section -> <<s1, s2>>
          fir   \* [n, len, up, ir: output -> taps, hist: latest samples]
Flat == <<1, 0, 0, 0, 0>>
Rest == <<0, 0>>
All(n, s, v) == [c \in 1..n |-> [k \in 1..s |-> v]]
\* one sample through section k.. of a channel: <<output, states>>
RECURSIVE Sections(_, _, _, _)
Sections(cs, z, k, x) ==
  IF k > Len(cs) THEN <<x, z>>
  ELSE LET c == cs[k]
           y == c[1] * x + z[k][1]
       IN Sections(cs, [z EXCEPT ![k] = <<z[k][2] + c[2] * x - c[4] * y, c[3] * x - c[5] * y>>], k + 1, y)
RECURSIVE Run(_, _, _, _, _)
\* a stream through a channel: <<outputs, states>>
Run(cs, z, x, i, y) == IF i > Len(x) THEN <<y, z>> ELSE LET r == TLCEval(Sections(cs, z, 1, x[i])) IN Run(cs, r[2], x, i + 1, Append(y, r[1]))
Filter(cs, z, x) == Run(cs, z, x, 1, <<>>)
\* ---- FIR
RECURSIVE Taps(_, _, _, _, _)
Taps(f, h, p, up, j) == IF j = 0 THEN 0
                        ELSE LET i == p - (j - 1) * up
                             IN (IF f[j] = 0 \/ i < 1 THEN 0 ELSE f[j] * h[i]) + Taps(f, h, p, up, j - 1)
Keep == 2112
Extend(h, x) == LET g == h \o x IN IF Len(g) > Keep THEN SubSeq(g, Len(g) - Keep + 1, Len(g)) ELSE g
FirOut(F, h, nx, o, t) == Taps(F.ir[o], h, Len(h) - nx + t, F.up, F.len)
=============================================================================
