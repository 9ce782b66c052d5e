----------------------------- MODULE SceneTrace -----------------------------
EXTENDS Scene, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
T == Trace[l]
Is(e) == l <= Len(Trace) /\ T.e = e /\ l' = l + 1
Dec0 == {<<NoScene, NoScene, FALSE>>}
Init == vec = [k \in 0..3 |-> NoScene] /\ dec = Dec0 /\ l = 1
TScn == Is("scn") /\ vec' = [k \in 0..3 |-> NoScene] /\ dec' = Dec0
Ords == [x \in {ToString(k) : k \in 0..9} |-> CHOOSE k \in 0..9 : ToString(k) = x]
Becomes(k, s) == vec' = [vec EXCEPT ![k] = s] /\ UNCHANGED dec
See(D) == LET E == {d \in D : IsList(d[2], T.s) /\ d[3] = T.ch} IN T.r = "" /\ E # {} /\ dec' = {<<d[1], d[2], FALSE>> : d \in E}
TBlk == Is("blk") /\ See(Decode(dec, T.m)) /\ UNCHANGED vec
TUpd == /\ Is("upd")
        /\ LET a == After(vec[T.k], T.m)
           IN IF a[2] THEN T.r = "" /\ IsList(a[1], T.s) /\ Becomes(T.k, a[1])
              ELSE T.r = "ex" /\ LET s == IF TLCEval(IsList(a[1], T.s)) THEN a[1] ELSE vec[T.k] IN IsList(s, T.s) /\ Becomes(T.k, s)
TFill == /\ Is("fill")
         /\ LET a == After(NoScene, T.m) IN IF a[2] THEN T.r = "" /\ IsList(a[1], T.s) /\ Becomes(T.k, a[1]) ELSE T.r = "ex" /\ IsList(vec[T.k], T.s) /\ Becomes(T.k, vec[T.k])
To(s) == IsList(s, T.s) /\ Becomes(T.k, s)
TPut == Is("put") /\ To(Put(vec[T.k], Object(T.m, T.m.c)))
TNew == Is("new") /\ To(Put(vec[T.k], New(T.i, T.t)))
TRep == Is("rep") /\ T.f = (T.i \in DOMAIN vec[T.k]) /\ To(vec[T.k])
TRm == Is("rm") /\ T.r = (IF T.i \in DOMAIN vec[T.k] THEN "" ELSE "ex") /\ To(Without(vec[T.k], T.i))
TSet == Is("set") /\ T.i \in DOMAIN vec[T.k] /\ To([vec[T.k] EXCEPT ![T.i].l = T.l])
TAt == /\ Is("at") /\ UNCHANGED sv /\ T.n = Cardinality(DOMAIN vec[T.k]) /\ T.em = Empty(vec[T.k])
       /\ IF T.i \in DOMAIN vec[T.k] THEN T.r = "" /\ T.o = vec[T.k][T.i] ELSE T.r = "ex"
TLook == Is("look") /\ T.n = Cardinality(DOMAIN vec[T.k]) /\ T.em = Empty(vec[T.k]) /\ To(vec[T.k])
\* copies of a whole vector: 2 exchanges, 3 moves (the source is left empty), 6 clears
TCp == /\ Is("cp") /\ UNCHANGED dec
       /\ LET x == vec[T.f] y == vec[T.k]
              nx == IF T.f = T.k THEN (IF T.h = 6 THEN NoScene ELSE x) ELSE IF T.h = 2 THEN y ELSE IF T.h = 3 THEN NoScene ELSE x
              ny == IF T.h = 6 THEN NoScene ELSE x
          IN IsList(nx, T.x) /\ IsList(ny, T.s) /\ vec' = [k \in DOMAIN vec |-> IF k = T.k THEN ny ELSE IF k = T.f THEN nx ELSE vec[k]]
WritableAll(s) == \A i \in DOMAIN s : Writable(s[i])
ReadableAll(s) == \A i \in DOMAIN s : Readable(s[i], Ords)
TRt == /\ Is("rt") /\ T.e2 = (IF WritableAll(vec[T.f]) THEN "" ELSE "ex")
       /\ IF TLCEval(WritableAll(vec[T.f]) /\ ReadableAll(vec[T.f])) THEN T.r = "" /\ To(Wired(vec[T.f])) ELSE T.r = (IF WritableAll(vec[T.f]) THEN "ex" ELSE "") /\ To(vec[T.k])
\* through encoder and decoder component: objects of the vector replace those of the same id
TSend == /\ Is("send") /\ UNCHANGED vec /\ T.n = 1
         /\ LET s == Wired(vec[T.k]) IN TLCEval(ReadableAll(s)) /\ See({<<s @@ d[1], s @@ d[1], TRUE>> : d \in dec})
TEq == Is("eq") /\ UNCHANGED sv /\ T.r = "" /\ T.y = T.x
TLate == /\ Is("late") /\ UNCHANGED sv
         /\ IF T.h = 2 THEN T.r = "ex" ELSE T.r = "" /\ T.v = IF T.h = 0 THEN <<"1.5", "0", "0", "0", "0">> ELSE <<"1.5", "2", "2", "0", "0">>
TNext == TScn \/ TBlk \/ TUpd \/ TFill \/ TPut \/ TNew \/ TRep \/ TRm \/ TSet \/ TAt \/ TLook \/ TCp \/ TRt \/ TSend \/ TEq \/ TLate
TraceSpec == Init /\ [][TNext]_<<sv, l>>
TraceAccepted == LET d == TLCGet("stats").diameter IN d - 1 = Len(Trace) \/ (PrintT(<<"REJECTED_AT", d>>) /\ FALSE)
=============================================================================
