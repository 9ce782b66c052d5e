-------------------------------- MODULE Prof --------------------------------
(* Runtime profiler of a signal flow: a ring of the latest measurements (one row per completed block, one column per component), and
   running statistics since the last reset.  meas keeps every row since the last reset; the ring shows row k at position k mod cap. *)
EXTENDS Integers, Sequences, FiniteSets, TLC
VARIABLES n,       \* number of components
          on, cap, \* profiling enabled, capacity of the ring
          meas,    \* rows since measurements were last fetched or reset
          stat     \* rows since the statistics were last reset
pv == <<n, on, cap, meas, stat>>
Block(row) == IF on THEN meas' = Append(meas, row) /\ stat' = Append(stat, row) ELSE UNCHANGED <<meas, stat>>
Enable(c) == on' = TRUE /\ cap' = c /\ meas' = <<>> /\ stat' = <<>>
Disable == on' = FALSE /\ UNCHANGED <<cap, meas, stat>>
\* the rows a fetch must show: function from ring positions to rows
Shown == LET k == Len(meas) IN [i \in {q \in 0..(cap - 1) : q < k} |-> meas[CHOOSE j \in 1..k : j > k - cap /\ (j - 1) % cap = i]]
RECURSIVE Sum(_, _)
Sum(rows, c) == IF rows = <<>> THEN 0 ELSE Head(rows)[c] + Sum(Tail(rows), c)
RECURSIVE SumSq(_, _)
SumSq(rows, c) == IF rows = <<>> THEN 0 ELSE Head(rows)[c] * Head(rows)[c] + SumSq(Tail(rows), c)
Abs(x) == IF x < 0 THEN -x ELSE x
NaN == -1
\* v: mean in 1/1000 units; w: variance in 1/1000 units, both per component
MeanOk(v) == \A c \in 1..n : Abs(v[c] * Len(stat) - 1000 * Sum(stat, c)) <= Len(stat)
VarNum(c) == Len(stat) * SumSq(stat, c) - Sum(stat, c) * Sum(stat, c)
VarOk(w) == LET k == Len(stat) IN \A c \in 1..n : Abs((w[c] \div 1000) * k * (k - 1) - VarNum(c)) <= k * (k - 1) /\ Abs((w[c] % 1000) * k * (k - 1) - 1000 * (VarNum(c) - (w[c] \div 1000) * k * (k - 1))) <= k * (k - 1)
AllNaN(v) == \A c \in 1..n : v[c] = NaN
=============================================================================
