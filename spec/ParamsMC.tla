------------------------------ MODULE ParamsMC ------------------------------
(* Small instance of Params: every history of operations on two matrices and a vector keeps shapes and contents consistent, a refused
   operation changes nothing, and the reading of texts inverts writing for every choice of separators, blanks and comments. *)
EXTENDS Params
CONSTANTS MaxOps
VARIABLES m, n, last   \* last: <<result, operation, slots, state before>>
mv == <<m, n, last>>
Dims == {<<0, 0>>, <<1, 2>>, <<2, 1>>}
Start == {Obj(cls, "f", al, Zeros(d[1], d[2]), d[1], d[2]) : cls \in {"mat", "mp"}, al \in {1, 2}, d \in Dims}
MCInit == m \in [{"A", "B"} -> Start] /\ n = 0 /\ last = <<"", "-", "A", "B", m>>
Do(s, r, o) == m' = [m EXCEPT ![s] = o] /\ last' = <<r, "one", s, s, m>>
Pair(k, s, t) == LET p == Two(k, m[s], m[t])
                 IN m' = (IF s = t THEN [m EXCEPT ![s] = p[2]] ELSE [m EXCEPT ![s] = p[2], ![t] = p[3]]) /\ last' = <<p[1], k, s, t, m>>
Kinds(s, t) == {"swap", "copy"} \cup (IF m[s].cls = "mp" /\ m[t].cls = "mp" THEN {"assign", "base", "cctor", "clone"} ELSE {})
               \cup (IF m[s].cls = "mat" /\ m[t].cls = "mat" /\ s # t THEN {"move", "mctor"} ELSE {})
MCNext == /\ n < MaxOps /\ n' = n + 1
          /\ \/ \E s \in DOMAIN m, d \in Dims : Do(s, "", Resize(m[s], d[1], d[2], 0))
             \/ \E s \in DOMAIN m, x \in {0, 5} : Do(s, "", Fill(m[s], x))
             \/ \E s \in DOMAIN m, i \in 0..1, j \in 0..1 : LET p == Set(m[s], i, j, 7) IN Do(s, p[1], p[2])
             \/ \E s \in DOMAIN m, t \in DOMAIN m : \E k \in Kinds(s, t) : Pair(k, s, t)
MCSpec == MCInit /\ [][MCNext]_mv
Shapes == \A s \in DOMAIN m : Rect(m[s].v, m[s].r, m[s].c) /\ m[s].ok
Refused == last[1] = "ex" => m = last[5]
B4 == last[5]
Copied == last[1] = "" /\ last[2] \in {"copy", "assign", "base", "cctor", "clone"} => Same(m[last[3]], m[last[4]]) /\ m[last[3]].v = m[last[4]].v /\ m[last[4]] = B4[last[4]]
Swapped == last[1] = "" /\ last[2] = "swap" => m[last[3]].v = B4[last[4]].v /\ m[last[4]].v = B4[last[3]].v
Moved == last[1] = "" /\ last[2] \in {"move", "mctor"} => m[last[3]].v = B4[last[4]].v /\ m[last[4]].v = <<>>
Others == \A s \in DOMAIN m : s \notin {last[3], last[4]} => m[s] = B4[s]
\* ---- texts
Nums == {<<<<48>>, 0>>, <<<<45, 49>>, -100>>, <<<<49, 46, 53>>, 150>>, <<<<46, 53>>, 50>>, <<<<50, 101, 49>>, 2000>>}
Seps == {<<32>>, <<44>>, <<32, 44, 9>>}
Ends == {<<>>, <<32>>, <<37, 44, 49>>}
Bad == {<<44, 44>>, <<44, 32, 44>>, <<59>>, <<47>>}
RECURSIVE Cat(_)
Cat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Cat(Tail(ss))
ASSUME RoundTrip == \A a \in Nums, b \in Nums, c \in Nums, s \in Seps, t \in Seps, e \in Ends, l \in {<<>>, <<9>>} :
         ParseVec(l \o a[1] \o s \o b[1] \o t \o c[1] \o e) = <<TRUE, <<a[2], b[2], c[2]>>>>
ASSUME Rejected == \A a \in Nums, b \in Nums, s \in Bad, e \in Ends : ~ParseVec(a[1] \o s \o b[1] \o e)[1]
ASSUME Trailing == \A a \in Nums, s \in {<<44>>, <<44, 32>>} : ~ParseVec(a[1] \o s)[1] /\ ~ParseVec(s \o a[1])[1]
ASSUME Matrices == \A a \in Nums, b \in Nums, c \in Nums, d \in Nums, nl \in {<<10>>, <<59>>, <<32, 59, 10>>, <<37, 52, 10>>}, e \in {<<>>, <<10>>, <<59, 32>>} :
         /\ ParseMat(a[1] \o <<32>> \o b[1] \o nl \o c[1] \o <<44>> \o d[1] \o e) = <<TRUE, <<<<a[2], b[2]>>, <<c[2], d[2]>>>>>>
         /\ ~ParseMat(a[1] \o <<32>> \o b[1] \o nl \o c[1] \o e)[1]
ASSUME Blank0 == ParseVec(<<>>) = <<TRUE, <<>>>> /\ ParseMat(<<10, 32, 59>>) = <<TRUE, <<>>>>
=============================================================================
