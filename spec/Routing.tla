------------------------------- MODULE Routing -------------------------------
(* Routing tables (signal, filter and sparse gain routings) with their text forms, and the routing component.
   An entry is a tuple; its key decides what replaces what.  Gains are counted in 1/8, "no index" is -1.
     signal  <<input, output>>                 key: output
     filter  <<input, output, filter, gain>>   key: input, output
     sparse  <<index, row, column, gain>>      key: index                                              *)
EXTENDS Lists
Key(k, e) == CASE k = "signal" -> <<e[2]>> [] k = "filter" -> <<e[1], e[2]>> [] OTHER -> <<e[1]>>
Keys(k, t) == {Key(k, e) : e \in t}
Put(k, t, e) == {x \in t : Key(k, x) # Key(k, e)} \cup {e}
Drop(k, t, key) == {x \in t : Key(k, x) # key}
RECURSIVE PutAll(_, _, _)
PutAll(k, t, es) == IF es = <<>> THEN t ELSE PutAll(k, Put(k, t, Head(es)), Tail(es))
Distinct(k, es) == \A i, j \in 1..Len(es) : i # j => Key(k, es[i]) # Key(k, es[j])
InputOf(t, o) == IF \E e \in t : e[2] = o THEN (CHOOSE e \in t : e[2] = o)[1] ELSE -1
OutputsOf(t, i) == {e[2] : e \in {x \in t : x[1] = i}}
OutputOf(t, i) == IF OutputsOf(t, i) = {} THEN -1 ELSE CHOOSE o \in OutputsOf(t, i) : \A p \in OutputsOf(t, i) : o <= p

(* ---- text form of signal routings: pairs a=b separated by a comma and/or blanks *)
Equals == 61
EErr == <<Err>>    \* result of a text that is no routing list
\* tokens: numbers <<0, n>>, '=' <<1>>, ',' <<2>>, anything else <<3>>
RECURSIVE Tokens(_, _)
Tokens(t, cur) == \* cur: digits of the number being read
  LET flush == IF cur = <<>> THEN <<>> ELSE IF Len(Strip(cur)) > 9 THEN <<<<3>>>> ELSE <<<<0, Nat10(Strip(cur), 0)>>>> IN
  IF t = <<>> THEN flush
  ELSE LET c == t[1] IN
       IF Digit(c) THEN Tokens(Tail(t), Append(cur, c))
       ELSE flush \o (IF Blank(c) THEN <<>> ELSE <<IF c = Equals THEN <<1>> ELSE IF c = Comma THEN <<2>> ELSE <<3>>>>) \o Tokens(Tail(t), <<>>)
RECURSIVE Pairs(_)
Pairs(k) == \* k: tokens; a sequence of entries or EErr
  IF Len(k) < 3 \/ k[1][1] # 0 \/ k[2][1] # 1 \/ k[3][1] # 0 THEN EErr
  ELSE LET e == <<<<k[1][2], k[3][2]>>>>
           r == SubSeq(k, 4, Len(k))
           rest == IF r = <<>> THEN <<>> ELSE Pairs(IF r[1][1] = 2 THEN Tail(r) ELSE r)
       IN IF rest = EErr THEN EErr ELSE e \o rest
SignalText(t) == Pairs(Tokens(t, <<>>))

(* ---- JSON form of filter and sparse gain routings; an entry is <<field, field, field, gain>> of texts.
   NoText marks a missing field. *)
NoText == <<-1>>
Pick(s, i) == IF Len(s) = 1 THEN s[1] ELSE s[i]
Fits(s, n) == Len(s) = 1 \/ Len(s) = n
One(k, x) == \* entries of one JSON object, or EErr
  IF x[1] = NoText \/ x[2] = NoText \/ x[3] = NoText \/ (k = "sparse" /\ x[4] = NoText) THEN EErr
  ELSE LET a == Expand(x[1], FALSE) b == Expand(x[2], FALSE) c == Expand(x[3], FALSE)
           g == IF x[4] = NoText THEN <<Unit>> ELSE Expand(x[4], TRUE)
       IN IF Err \in {a, b, c, g} THEN EErr
          ELSE LET n == IF k = "filter" /\ Len(a) = 1 THEN Len(b) ELSE Len(a)
               IN IF ~(Fits(b, n) /\ Fits(c, n) /\ Fits(g, n)) THEN EErr
                  ELSE [i \in 1..n |-> <<Pick(a, i), Pick(b, i), Pick(c, i), Pick(g, i)>>]
Json2Entries(k, doc) ==
  LET es == [i \in 1..Len(doc) |-> One(k, doc[i])] IN
  IF \E i \in 1..Len(doc) : es[i] = EErr THEN EErr ELSE Concat(es)

(* ---- the tables *)
CONSTANT Slots
VARIABLES tab        \* Slots -> [k: kind, t: set of entries]
None == [k |-> "none", t |-> {}]
RInit == tab = [s \in Slots |-> None]
Set(s, t) == tab' = [tab EXCEPT ![s].t = t]
Make(s, k, es, ok) == /\ ok = Distinct(k, es)
                      /\ tab' = [tab EXCEPT ![s] = IF ok THEN [k |-> k, t |-> PutAll(k, {}, es)] ELSE None]
Add(s, e) == Set(s, Put(tab[s].k, tab[s].t, e))
RemoveKey(s, key, ret) == ret = (key \in Keys(tab[s].k, tab[s].t)) /\ Set(s, Drop(tab[s].k, tab[s].t, key))
RemoveEntry(s, e, ret) == ret = (e \in tab[s].t) /\ Set(s, tab[s].t \ {e})
Clear(s) == Set(s, {})
Copy(s, d) == tab' = [tab EXCEPT ![d] = tab[s]]
Swap(s, d) == tab' = [tab EXCEPT ![s] = tab[d], ![d] = tab[s]]
Parse(s, x, ok) == \* x: entries or EErr; a text that is not accepted changes nothing
  /\ ok = (x # EErr) /\ IF ok THEN Set(s, PutAll(tab[s].k, {}, x)) ELSE UNCHANGED tab

(* ---- the routing component *)
VARIABLES comp       \* [ni, no, ctl: has a control input, t: table, known: is the table determined, pend: published tables not yet taken]
NoComp == [ni |-> 0, no |-> 0, ctl |-> FALSE, t |-> {}, known |-> FALSE, pend |-> <<>>]
CInit == comp = NoComp
InRange(ni, no, e) == e[1] \in -1..(ni - 1) /\ e[2] \in 0..(no - 1)
AllInRange(ni, no, es) == \A e \in PutAll("signal", {}, es) : InRange(ni, no, e)   \* of the table they make
CMake(ni, no, es, ctl, ok) == /\ ok = AllInRange(ni, no, es)
                              /\ comp' = IF ok THEN [ni |-> ni, no |-> no, ctl |-> ctl, t |-> PutAll("signal", {}, es), known |-> TRUE, pend |-> <<>>] ELSE NoComp
CSet(e, ok) == /\ ok = InRange(comp.ni, comp.no, e)
               /\ comp' = IF ok THEN [comp EXCEPT !.t = Put("signal", @, e)] ELSE comp
CSetAll(es, ok) == /\ ok = AllInRange(comp.ni, comp.no, es)
                   /\ comp' = IF ok THEN [comp EXCEPT !.t = PutAll("signal", {}, es), !.known = TRUE] ELSE [comp EXCEPT !.known = FALSE]
CRemove(e, ok, ret) == /\ ok = InRange(comp.ni, comp.no, e)
                       /\ (ok /\ comp.known => ret = (e \in comp.t))
                       /\ comp' = IF ok THEN [comp EXCEPT !.t = @ \ {e}] ELSE comp
CPublish(es) == comp.ctl /\ comp' = [comp EXCEPT !.pend = <<es>>]   \* only the latest publication counts
\* the table in force in a block
Taken == IF comp.pend = <<>> \/ ~AllInRange(comp.ni, comp.no, comp.pend[1]) THEN [t |-> comp.t, known |-> comp.known]
         ELSE [t |-> PutAll("signal", {}, comp.pend[1]), known |-> TRUE]
\* in, out: sequences of channels
CBlock(in, out) ==
  /\ Taken.known => \A o \in 1..comp.no : LET i == InputOf(Taken.t, o - 1) IN
        out[o] = IF i = -1 THEN [n \in 1..Len(out[o]) |-> 0] ELSE in[i + 1]
  /\ comp' = [comp EXCEPT !.t = Taken.t, !.known = Taken.known, !.pend = <<>>]
=============================================================================
