------------------------------- MODULE Names -------------------------------
(* The tree of components and the registries of ports: who exists, who is whose parent, in which order, under which name. *)
EXTENDS Integers, Sequences, FiniteSets, TLC
VARIABLES comps,  \* id -> [n: name, par: parent id or 0, co: composite?, kids, ap, pp: sequences of ids in registration order, clk: clock id]
          ports,  \* id -> [n: name, c: component id or 0, w: width, au: audio?]
          clocks, \* clock id -> number of blocks passed
          conn    \* id of a composite -> [a: bag of audio connections as a sequence, p: the same for parameters]
nv == <<comps, ports, clocks, conn>>
Without(s, x) == SelectSeq(s, LAMBDA y : y # x)
HasName(tab, ids, name) == \E k \in DOMAIN ids : tab[ids[k]].n = name
ByName(tab, ids, name) == IF HasName(tab, ids, name) THEN ids[CHOOSE k \in DOMAIN ids : tab[ids[k]].n = name] ELSE 0
\* construction of a component: refused exactly if the parent has a child with that name
MayCreate(name, par) == par = 0 \/ ~HasName(comps, comps[par].kids, name)
Create(i, name, par, co) ==
  LET clk == IF par = 0 THEN Len(clocks) + 1 ELSE comps[par].clk
      new == [n |-> name, par |-> par, co |-> co, kids |-> <<>>, ap |-> <<>>, pp |-> <<>>, clk |-> clk]
      base == IF par = 0 THEN comps ELSE [comps EXCEPT ![par].kids = Append(@, i)]
  IN /\ comps' = (i :> new) @@ base /\ UNCHANGED ports
     /\ clocks' = IF par = 0 THEN Append(clocks, 0) ELSE clocks
     /\ conn' = IF co THEN (i :> [a |-> <<>>, p |-> <<>>]) @@ conn ELSE conn
\* destruction: children become top-level components of their own, ports lose their component, the parent forgets the child
Restrict(f, S) == [x \in S |-> f[x]]
Destroy(i) ==
  /\ comps' = [x \in DOMAIN comps \ {i} |-> [comps[x] EXCEPT !.par = IF @ = i THEN 0 ELSE @, !.kids = Without(@, i)]]
  /\ ports' = [q \in DOMAIN ports |-> [ports[q] EXCEPT !.c = IF @ = i THEN 0 ELSE @]]
  /\ conn' = Restrict(conn, DOMAIN conn \ {i}) /\ UNCHANGED clocks
PortsOf(c, au) == IF au THEN comps[c].ap ELSE comps[c].pp
MayCreatePort(c, au, name) == ~HasName(ports, PortsOf(c, au), name)
CreatePort(q, c, au, name, w) ==
  /\ ports' = (q :> [n |-> name, c |-> c, w |-> w, au |-> au]) @@ ports
  /\ comps' = IF au THEN [comps EXCEPT ![c].ap = Append(@, q)] ELSE [comps EXCEPT ![c].pp = Append(@, q)]
  /\ UNCHANGED <<clocks, conn>>
DestroyPort(q) ==
  /\ ports' = Restrict(ports, DOMAIN ports \ {q})
  /\ comps' = [x \in DOMAIN comps |-> [comps[x] EXCEPT !.ap = Without(@, q), !.pp = Without(@, q)]]
  /\ UNCHANGED <<clocks, conn>>
SetWidth(q, w) == ports' = [ports EXCEPT ![q].w = w] /\ UNCHANGED <<comps, clocks, conn>>
Tick(i) == clocks' = [clocks EXCEPT ![comps[i].clk] = @ + 1] /\ UNCHANGED <<comps, ports, conn>>
\* names and lookups
RECURSIVE FullName(_)
FullName(i) == LET p == comps[i].par IN IF p = 0 \/ comps[p].par = 0 THEN comps[i].n ELSE FullName(p) \o ":" \o comps[i].n
FindPort(c, au, name) == ByName(ports, PortsOf(c, au), name)
FindComp(c, name) == IF name \in {"", "this"} THEN c ELSE ByName(comps, comps[c].kids, name)
FindIn(c, name, au, pn) == LET x == FindComp(c, name) IN IF x = 0 THEN 0 ELSE FindPort(x, au, pn)
\* connections inside composite c, by references to two ports
Inside(c, q) == ports[q].c # 0 /\ (ports[q].c = c \/ comps[ports[q].c].par = c)
Below(idx, w) == \A k \in DOMAIN idx : idx[k] < w
AudioOk(c, s, t, x, y) == Inside(c, s) /\ Inside(c, t) /\ Len(x) = Len(y) /\ Below(x, ports[s].w) /\ Below(y, ports[t].w)
AddAudio(c, s, t, x, y) == conn' = [conn EXCEPT ![c].a = Append(@, <<<<s, t>>, x, y>>)] /\ UNCHANGED <<comps, ports, clocks>>
AddParam(c, s, t) == conn' = [conn EXCEPT ![c].p = Append(@, <<s, t>>)] /\ UNCHANGED <<comps, ports, clocks>>
Range(s) == {s[k] : k \in DOMAIN s}
CountOf(s, v) == Cardinality({k \in DOMAIN s : s[k] = v})
SameBag(s, t) == Len(s) = Len(t) /\ \A v \in Range(s) \cup Range(t) : CountOf(s, v) = CountOf(t, v)
\* ---- invariants
UniqueNames == \A i \in DOMAIN comps : LET K == comps[i].kids IN \A a, b \in DOMAIN K : a # b => comps[K[a]].n # comps[K[b]].n
UniquePorts == \A i \in DOMAIN comps, au \in BOOLEAN : LET K == PortsOf(i, au) IN \A a, b \in DOMAIN K : a # b => ports[K[a]].n # ports[K[b]].n
TreeLinks == \A i \in DOMAIN comps : /\ comps[i].par # 0 => comps[i].par \in DOMAIN comps /\ i \in Range(comps[comps[i].par].kids)
                                     /\ \A k \in Range(comps[i].kids) : k \in DOMAIN comps /\ comps[k].par = i
PortLinks == /\ \A q \in DOMAIN ports : ports[q].c # 0 => ports[q].c \in DOMAIN comps /\ q \in Range(PortsOf(ports[q].c, ports[q].au))
             /\ \A i \in DOMAIN comps, au \in BOOLEAN : \A q \in Range(PortsOf(i, au)) : q \in DOMAIN ports /\ ports[q].c = i /\ ports[q].au = au
FindExact == \A i \in DOMAIN comps : \A k \in Range(comps[i].kids) : FindComp(i, comps[k].n) = k
\* the full name is unique within a tree and leads from the root to the component
RECURSIVE Root(_)
Root(i) == IF comps[i].par = 0 THEN i ELSE Root(comps[i].par)
FullUnique == \A i, j \in DOMAIN comps : i # j /\ Root(i) = Root(j) /\ i # Root(i) /\ j # Root(j) => FullName(i) # FullName(j)
SharedTime == \A i \in DOMAIN comps : comps[i].par # 0 => comps[i].clk = comps[comps[i].par].clk
=============================================================================
