------------------------------ MODULE SignalsMC ------------------------------
(* Three managers on two loops, two signals, every sequence of operations.    *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, SequencesExt
CONSTANTS MaxOps, MaxKill
LoopOf(m) == IF m = "m3" THEN 2 ELSE 1
Act(h) == IF h = "k" THEN [t |-> "handle", m |-> "m2", sig |-> "S", h |-> "none"] ELSE [t |-> "none"]
S == INSTANCE Signals
VARIABLES s, h, n
(* h: what happened: how many signals arrived, and for each which managers were *)
(* open then (and still are), and which handled it                              *)
vars == <<s, h, n>>
Managers == {"m1", "m2", "m3"}
Users == {"u1", "none"}
Init == /\ s \in {[S!Init0 EXCEPT !.fd = w] : w \in Users}
        /\ h = [kills |-> 0, due |-> <<>>, seen |-> <<>>, fds |-> <<>>, over |-> FALSE] /\ n = 0
Sig(k) == <<"S", k>>
(* signals carry their number in this model; handlers are looked up by name *)
Enter == \E m \in Managers : /\ m \notin ToSet(s.open)
                             /\ s' = S!Enter(s, m)
                             /\ h' = [h EXCEPT !.fds = <<s.fd>> \o @]
Exit == /\ s.open # <<>>
        /\ s' = S!Exit(s, Head(s.open))
        /\ h' = [h EXCEPT !.due = [k \in DOMAIN @ |-> @[k] \ {Head(s.open)}], !.fds = Tail(@)]
Kill == /\ h.kills < MaxKill
        /\ s' = S!Kill(s, h.kills + 1)
        /\ h' = [h EXCEPT !.kills = @ + 1, !.due = Append(@, ToSet(s.open)), !.seen = Append(@, <<>>)]
User == \E w \in {"u2", "none"} : /\ s' = S!SetFd(s, w)
                       /\ h' = [h EXCEPT !.fds = IF s.open = <<>> THEN @ ELSE [@ EXCEPT ![Len(@)] = w]]
Look == \E m \in S!Ready(s, 1) \cup S!Ready(s, 2) :
          /\ s' = S!Dispatch(s, m).s
          /\ h' = [h EXCEPT !.seen = [k \in DOMAIN @ |->
                 @[k] \o [i \in 1..Cardinality({j \in DOMAIN s.buf[m] : s.buf[m][j] = k}) |-> m]]]
Next == n < MaxOps /\ n' = n + 1 /\ (Enter \/ Exit \/ Kill \/ User \/ Look)
Spec == Init /\ [][Next]_vars
(* no manager sees a signal twice *)
Once == \A k \in DOMAIN h.seen : IsInjective(h.seen[k])
(* when nothing waits, every manager which was open when a signal arrived and still is has seen it *)
Quiet == \A m \in ToSet(s.open) : s.buf[m] = <<>>
All == Quiet => \A k \in DOMAIN h.due : h.due[k] \subseteq ToSet(h.seen[k])
(* a signal never waits for two managers at the same time *)
OnePlace == \A k \in DOMAIN h.due :
  Cardinality({m \in ToSet(s.open) : k \in ToSet(s.buf[m])}) <= 1
(* each open manager has replaced what was the descriptor when it was entered (or set since) *)
Chain == [i \in DOMAIN s.open |-> s.prev[s.open[i]]] = h.fds
Current == s.open # <<>> => s.fd = Head(s.open)
Restored == [][Len(s'.open) < Len(s.open) => s'.fd = Head(h.fds)]_vars
=============================================================================
