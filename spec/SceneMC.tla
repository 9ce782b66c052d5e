------------------------------ MODULE SceneMC ------------------------------
EXTENDS Scene
CONSTANTS Ids, MaxParts, Depth
VARIABLE n
P(i, t, ch, c, o, ord, ok) == [i |-> i, t |-> t, ch |-> ch, c |-> c, g |-> 0, l |-> "1", p |-> 0, q |-> <<>>, v |-> IF t = "hoa" THEN <<ToString(ord)>> ELSE IF t \in Types THEN NewV(t) ELSE <<>>, o |-> o, r |-> <<>>, n |-> ord, ok |-> ok]
Parts == {P(i, x[1], x[2], x[3], x[4], x[5], TRUE) : i \in Ids, x \in {<<"diffuse", TRUE, <<"1">>, <<>>, 0>>, <<"diffuse", FALSE, <<"9">>, <<>>, 0>>, <<"diffuse", TRUE, <<>>, <<>>, 0>>,
                 <<"hoa", TRUE, <<"4">>, <<>>, 0>>, <<"hoa", TRUE, <<"1", "2", "3", "4">>, <<>>, 1>>, <<"hoa", FALSE, <<"9">>, <<>>, 0>>,
                 <<"channel", TRUE, <<"5">>, <<<<"L">>>>, 0>>, <<"channel", FALSE, <<"9">>, <<<<"R">>>>, 0>>, <<"nothing", TRUE, <<>>, <<>>, 0>>}}
         \cup {P(i, "diffuse", TRUE, <<"7">>, <<>>, 0, FALSE) : i \in Ids}
Msgs == {[bad |-> TRUE, o |-> <<>>]} \cup {[bad |-> FALSE, o |-> s] : s \in UNION {[1..k -> Parts] : k \in 0..MaxParts}}
Init == vec = (0 :> NoScene) /\ dec = {<<NoScene, NoScene, FALSE>>} /\ n = 0
Next == n < Depth /\ n' = n + 1 /\ \E m \in Msgs : /\ vec' = [vec EXCEPT ![0] = After(@, m)[1]]
                                                 /\ \E d \in Decode(dec, <<m>>) : dec' = {<<d[1], d[2], FALSE>>}
Spec == Init /\ [][Next]_<<sv, n>>
Scenes == {vec[0]} \cup UNION {{d[1], d[2]} : d \in dec}
AllConsistent == \A s \in Scenes : \A i \in DOMAIN s : s[i].i = i /\ s[i].t \in Types /\ Consistent(s[i].t, s[i].c, s[i].o, IF s[i].t = "hoa" THEN (IF s[i].v[1] = "1" THEN 1 ELSE 0) ELSE 0)
\* a message has the effect of its parts sent one by one; the same message again changes nothing; objects it does not name stay
OneByOne(s, m) == ~m.bad => LET a == Applied(s, m.o) IN a[2] => a[1] = (IF m.o = <<>> THEN s ELSE Applied(Applied(s, <<m.o[1]>>)[1], Tail(m.o))[1])
Named(m) == {m.o[k].i : k \in DOMAIN m.o}
Local(s, m) == LET a == After(s, m) IN DOMAIN s \subseteq DOMAIN a[1] /\ DOMAIN a[1] \subseteq DOMAIN s \cup Named(m) /\ \A i \in DOMAIN s \ Named(m) : a[1][i] = s[i]
Unique(m) == \A a, b \in DOMAIN m.o : a # b => m.o[a].i # m.o[b].i
Again(s, m) == LET a == After(s, m) IN a[2] /\ Unique(m) => After(a[1], m) = a
Laws == \A m \in Msgs : OneByOne(vec[0], m) /\ Local(vec[0], m) /\ Again(vec[0], m)
\* a published scene is what some sequence of good messages made
Faults == \A m \in Msgs : \A d \in dec : \A e \in DecodeOne(d, m) : After(d[1], m)[2] => e[1] = e[2] /\ e[3]
\* writing and reading
ToPart(x) == [i |-> x.i, t |-> x.t, ch |-> TRUE, c |-> x.c, g |-> x.g, l |-> x.l, p |-> x.p, q |-> x.q, v |-> x.v, o |-> x.o, r |-> x.r, n |-> IF x.t = "hoa" /\ x.v[1] = "1" THEN 1 ELSE 0, ok |-> TRUE]
RECURSIVE PartsOf(_, _)
PartsOf(s, I) == IF I = {} THEN <<>> ELSE LET i == CHOOSE j \in I : \A k \in I : j <= k IN <<ToPart(Wire(s[i]))>> \o PartsOf(s, I \ {i})
RoundTrip == \A s \in Scenes : Applied(NoScene, PartsOf(s, DOMAIN s)) = <<Wired(s), TRUE>> /\ Wired(Wired(s)) = Wired(s)
=============================================================================
