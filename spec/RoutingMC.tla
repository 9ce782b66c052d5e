------------------------------ MODULE RoutingMC ------------------------------
(* Two tables and a component over few indices: keys stay unique, the last entry for a key wins, a failed parse
   changes nothing, every output of the component has at most one input which is in range. *)
EXTENDS Routing, TLC, Json
CONSTANTS Kind, MaxOps, Log
MSlots == 0..1
VARIABLES ops, last
E2 == (0..1) \X (0..1)
Ent == IF Kind = "signal" THEN ({-1} \cup 0..1) \X (0..1) ELSE (0..1) \X (0..1) \X (0..1) \X {8}
Docs == IF Kind = "signal" THEN {<<>>, <<49, 61, 48>>, <<49, 61, 48, 32, 48, 61, 48>>, <<49, 61>>, <<49, 61, 48, 44, 48, 61, 49>>} 
        ELSE {<<>>} \cup {<<<<<<48, 44, 49>>, c, d, NoText>>>> : c \in {<<48>>, <<48, 58, 49>>, NoText}, d \in {<<49>>, <<48, 44, 48, 44, 48>>}}
X(d) == IF Kind = "signal" THEN SignalText(d) ELSE Json2Entries(Kind, d)
Op(name, arg) == ops' = Append(ops, <<name>> \o arg) /\ last' = tab
KeysAll == {Key(Kind, e) : e \in Ent}
MCInit == RInit /\ CInit /\ ops = <<>> /\ last = tab
Ready(s) == tab[s].k = Kind
MCNext ==
  /\ Len(ops) < MaxOps
  /\ \/ UNCHANGED comp /\
        \/ \E s \in Slots, es \in {<<>>} \cup {<<e>> : e \in Ent} : ~Ready(s) /\ Make(s, Kind, es, Distinct(Kind, es)) /\ Op("mk", <<s, es>>)
        \/ \E s \in Slots, e \in Ent : Ready(s) /\ Add(s, e) /\ Op("add", <<s, e>>)
        \/ \E s \in Slots, k \in KeysAll, r \in BOOLEAN : Ready(s) /\ RemoveKey(s, k, r) /\ Op("remk", <<s, k>>)
        \/ \E s \in Slots : Ready(s) /\ Clear(s) /\ Op("clear", <<s>>)
        \/ \E s \in Slots, d \in Docs : Ready(s) /\ Parse(s, X(d), X(d) # EErr) /\ Op("parse", <<s, d>>)
        \/ \E s \in Slots, o \in Slots : Ready(s) /\ Ready(o) /\ s # o /\ ((Copy(o, s) /\ Op("copy", <<s, o>>)) \/ (Swap(s, o) /\ Op("swap", <<s, o>>)))
     \/ UNCHANGED tab /\ Kind = "signal" /\
        \/ comp = NoComp /\ CMake(2, 2, <<>>, TRUE, TRUE) /\ Op("cmk", <<>>)
        \/ comp # NoComp /\ \E e \in ({-1} \cup 0..2) \X (0..1), ok \in BOOLEAN : CSet(e, ok) /\ Op("cset", <<e>>)
        \/ comp # NoComp /\ \E e \in ({-1} \cup 0..2) \X (0..1), ok \in BOOLEAN : CSetAll(<<e>>, ok) /\ Op("call", <<e>>)
        \/ comp # NoComp /\ \E e \in ({-1} \cup 0..2) \X (0..1) : CPublish(<<e>>) /\ Op("cpub", <<e>>)
        \/ comp # NoComp /\ \E out \in [1..2 -> {<<0>>, <<1>>, <<2>>}] : CBlock(<<<<1>>, <<2>>>>, out) /\ Op("blk", <<out>>)
MCSpec == MCInit /\ [][MCNext]_<<tab, comp, ops, last>>
Unique(t) == \A a, b \in t : Key("signal", a) = Key("signal", b) => a = b
KeysUnique == \A s \in Slots : \A a, b \in tab[s].t : Key(Kind, a) = Key(Kind, b) => a = b
CompUnique == comp.known => Unique(comp.t) /\ \A e \in comp.t : InRange(comp.ni, comp.no, e)
AddWins == ops # <<>> /\ ops[Len(ops)][1] = "add" => ops[Len(ops)][3] \in tab[ops[Len(ops)][2]].t
RemoveGone == ops # <<>> /\ ops[Len(ops)][1] = "remk" => ops[Len(ops)][3] \notin Keys(Kind, tab[ops[Len(ops)][2]].t)
FailedParseKeeps == ops # <<>> /\ ops[Len(ops)][1] = "parse" /\ X(ops[Len(ops)][3]) = EErr => tab = last
Emit == Log /\ Len(ops) = MaxOps => PrintT("@@" \o ToJson(ops))
View == <<tab, comp, ops>>
=============================================================================
