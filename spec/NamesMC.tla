------------------------------ MODULE NamesMC ------------------------------
EXTENDS Names
CONSTANTS CIds, PIds, CNames, PNames, Depth
VARIABLES step
Empty == [x \in {} |-> 0]
MCInit == comps = Empty /\ ports = Empty /\ clocks = <<>> /\ conn = Empty /\ step = 0
Act(A) == step < Depth /\ step' = step + 1 /\ A
MCNext == \/ \E i \in CIds \ DOMAIN comps, n \in CNames, co \in BOOLEAN, p \in {0} \cup {x \in DOMAIN comps : comps[x].co} : Len(clocks) < 3 /\ TLCEval(MayCreate(n, p)) /\ Act(Create(i, n, p, co))
          \/ \E i \in DOMAIN comps : Act(Destroy(i))
          \/ \E q \in PIds \ DOMAIN ports, c \in DOMAIN comps, au \in BOOLEAN, n \in PNames : MayCreatePort(c, au, n) /\ Act(CreatePort(q, c, au, n, 1))
          \/ \E q \in DOMAIN ports : Act(DestroyPort(q))
          \/ \E c \in DOMAIN conn, s, t \in DOMAIN ports : conn[c].a = <<>> /\ ports[s].au /\ ports[t].au /\ AudioOk(c, s, t, <<0>>, <<0>>) /\ Act(AddAudio(c, s, t, <<0>>, <<0>>))
MCSpec == MCInit /\ [][MCNext]_<<nv, step>>
=============================================================================
