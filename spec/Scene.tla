------------------------------- MODULE Scene -------------------------------
(* Scenes: sets of audio objects with unique ids, the messages which change them, and the decoder component that publishes a scene. *)
EXTENDS Integers, Sequences, FiniteSets, TLC
VARIABLES vec,   \* id of a vector -> scene (object id -> object)
          dec    \* possible states of the decoder: <<scene the next message applies to, published scene, publication announced>>
sv == <<vec, dec>>
NoScene == [x \in {} |-> 0]
Empty(v) == DOMAIN v = {}
\* objects: i(d), t(ype), c(hannels), g(roup), l(evel), p(riority), q: equalisers, v: attributes of the type, o: output channels, r: reflections
Types == {"point", "pointextent", "plane", "diffuse", "pointdiffuse", "hoa", "channel", "pointreverb"}
Object(u, c) == [i |-> u.i, t |-> u.t, c |-> c, g |-> u.g, l |-> u.l, p |-> u.p, q |-> u.q, v |-> u.v, o |-> u.o, r |-> u.r]
\* a part of a message describes an object completely, except that the channels stay as they were if the object has this type already and the part has no (valid) channel list
Channels(s, u) == IF u.ch THEN u.c ELSE IF u.i \in DOMAIN s /\ s[u.i].t = u.t THEN s[u.i].c ELSE <<>>
Consistent(t, c, o, ord) == (t = "hoa" => Len(c) = (ord + 1) * (ord + 1)) /\ (t = "channel" => Len(c) = Len(o))
Good(s, u) == u.ok /\ u.t \in Types /\ Consistent(u.t, Channels(s, u), u.o, u.n)
Put(s, x) == (x.i :> x) @@ s
RECURSIVE Applied(_, _)   \* <<scene after the parts up to the first bad one, all good?>>
Applied(s, us) == IF us = <<>> THEN <<s, TRUE>> ELSE IF ~Good(s, us[1]) THEN <<s, FALSE>> ELSE Applied(Put(s, Object(us[1], Channels(s, us[1]))), Tail(us))
After(s, m) == IF m.bad THEN <<s, FALSE>> ELSE Applied(s, m.o)
\* the decoder: a good message is applied to the latest scene and published; of a bad one, the parts before the fault may take effect
DecodeOne(d, m) ==
  LET a == After(d[1], m)
  IN IF a[2] THEN {<<a[1], a[1], TRUE>>}
     ELSE {<<d[1], d[2], d[3]>>, <<a[1], d[2], d[3]>>, <<a[1], a[1], TRUE>>}
RECURSIVE Decode(_, _)
Decode(D, ms) == IF ms = <<>> THEN D ELSE Decode(UNION {DecodeOne(d, ms[1]) : d \in D}, Tail(ms))
\* what encoding and decoding an object yields: "always locked" is a distance of 180 degrees
Points == {"point", "pointextent", "pointdiffuse", "pointreverb"}
Lock(v) == IF v[4] = "inf" THEN [v EXCEPT ![4] = "180"] ELSE v
Wire(x) == IF x.t \in Points THEN [x EXCEPT !.v = Lock(@)] ELSE x
Ord(x, ords) == IF x.t = "hoa" THEN ords[x.v[1]] ELSE 0
Readable(x, ords) == Consistent(x.t, x.c, x.o, Ord(x, ords))
Writable(x) == x.t # "channel" \/ Len(x.c) = Len(x.o)
Wired(s) == [i \in DOMAIN s |-> Wire(s[i])]
Without(s, i) == [x \in DOMAIN s \ {i} |-> s[x]]
\* a new object
Zeros(n) == [k \in 1..n |-> "0"]
NewV(t) == CASE t = "point" -> Zeros(4) \o <<"free">> [] t = "pointdiffuse" -> Zeros(4) \o <<"free", "0">> [] t = "pointextent" -> Zeros(4) \o <<"free">> \o Zeros(4)
             [] t = "plane" -> Zeros(3) [] t = "diffuse" -> <<>> [] t = "hoa" -> Zeros(1) [] t = "channel" -> Zeros(1) [] t = "pointreverb" -> Zeros(4) \o <<"free">> \o Zeros(28)
New(i, t) == [i |-> i, t |-> t, c |-> <<>>, g |-> 0, l |-> "0", p |-> 0, q |-> <<>>, v |-> NewV(t), o |-> <<>>, r |-> <<>>]
\* a scene as a list: by ascending ids
IsList(s, x) == /\ Len(x) = Cardinality(DOMAIN s) /\ \A k \in DOMAIN x : x[k].i \in DOMAIN s /\ x[k] = s[x[k].i]
                /\ \A k \in 1..(Len(x) - 1) : x[k].i < x[k + 1].i
=============================================================================
