------------------------------ MODULE ThreadsMC ------------------------------
(* The protocol between the loop and the calling threads (launch_service.py),  *)
(* at the level of lock acquisitions and unprotected reads: every call returns, *)
(* every event is processed once and in order, one shutdown per run.            *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, SequencesExt
CONSTANTS Progs,    \* the possible programs of a thread (sequences of "emit" / "shut")
          Swi       \* shut down when idle
TheProgs == UNION {[1..k -> {"emit", "shut"}] : k \in 0..2}
VARIABLES lock, running, shutting, pend, queue, done, lpc, idle, runs, tpc, pos, prog, shuts
vars == <<lock, running, shutting, pend, queue, done, lpc, idle, runs, tpc, pos, prog, shuts>>
Threads == {1, 2}
Loop == 9
Runs == 2
Ev(t) == <<t, pos[t]>>
Init == /\ lock = 0 /\ running = FALSE /\ shutting = FALSE /\ pend = <<>> /\ queue = <<>> /\ done = <<>>
        /\ lpc = "out" /\ idle = FALSE /\ runs = 0 /\ shuts = 0
        /\ prog \in [Threads -> Progs] /\ pos = [t \in Threads |-> 1] /\ tpc = [t \in Threads |-> "call"]
Same(v) == UNCHANGED v
(* ---- a thread: begin of a call, the critical section, waiting for the loop *)
Op(t) == prog[t][pos[t]]
Active(t) == pos[t] <= Len(prog[t])
Acquire(t) == /\ Active(t) /\ tpc[t] = "call" /\ lock = 0 /\ lock' = t
              /\ tpc' = [tpc EXCEPT ![t] = "in"]
              /\ Same(<<running, shutting, pend, queue, done, lpc, idle, runs, pos, prog, shuts>>)
Leave(t, wait) == tpc' = [tpc EXCEPT ![t] = IF wait THEN "leave-wait" ELSE "leave"]
InEmit(t) == /\ Active(t) /\ tpc[t] = "in" /\ Op(t) = "emit"
             /\ IF running THEN pend' = Append(pend, Ev(t)) /\ Same(queue) ELSE queue' = Append(queue, Ev(t)) /\ Same(pend)
             /\ Leave(t, running)
             /\ Same(<<lock, running, shutting, done, lpc, idle, runs, pos, prog, shuts>>)
InShut(t) == /\ Active(t) /\ tpc[t] = "in" /\ Op(t) = "shut"
             /\ IF running /\ ~shutting
                THEN pend' = Append(pend, Ev(t)) /\ tpc' = [tpc EXCEPT ![t] = "flag"] /\ shuts' = shuts + 1
                ELSE Same(<<pend, shuts>>) /\ Leave(t, FALSE)
             /\ Same(<<lock, running, shutting, queue, done, lpc, idle, runs, pos, prog>>)
Flag(t) == /\ tpc[t] = "flag" /\ shutting' = TRUE /\ Leave(t, TRUE)
           /\ Same(<<lock, running, pend, queue, done, lpc, idle, runs, pos, prog, shuts>>)
Release(t) == /\ tpc[t] \in {"leave", "leave-wait"} /\ lock' = 0
              /\ IF tpc[t] = "leave" THEN tpc' = [tpc EXCEPT ![t] = "call"] /\ pos' = [pos EXCEPT ![t] = @ + 1]
                 ELSE tpc' = [tpc EXCEPT ![t] = "wait"] /\ Same(pos)
              /\ Same(<<running, shutting, pend, queue, done, lpc, idle, runs, prog, shuts>>)
Wake(t) == /\ tpc[t] = "wait" /\ Ev(t) \notin ToSet(pend)
           /\ tpc' = [tpc EXCEPT ![t] = "call"] /\ pos' = [pos EXCEPT ![t] = @ + 1]
           /\ Same(<<lock, running, shutting, pend, queue, done, lpc, idle, runs, prog, shuts>>)
(* ---- the loop *)
TV == <<tpc, pos, prog>>
StartRun == /\ lpc = "out" /\ runs < Runs /\ lock = 0 /\ running' = TRUE /\ lpc' = "top" /\ shuts' = 0
            /\ Same(<<lock, shutting, pend, queue, done, idle, runs>>) /\ Same(TV)
IsIdle == queue = <<>> /\ pend = <<>>
Top == /\ lpc = "top" /\ idle' = IsIdle /\ lpc' = IF IsIdle THEN "yield" ELSE "decide"
       /\ Same(<<lock, running, shutting, pend, queue, done, runs, shuts>>) /\ Same(TV)
(* callbacks scheduled by threads run whenever the loop waits *)
Flush == /\ lpc \in {"yield", "wait"} /\ pend # <<>> /\ lock = 0 /\ queue' = queue \o pend /\ pend' = <<>>
         /\ Same(<<lock, running, shutting, done, lpc, idle, runs, shuts>>) /\ Same(TV)
Yielded == /\ lpc = "yield" /\ idle' = IsIdle /\ lpc' = "decide"
           /\ Same(<<lock, running, shutting, pend, queue, done, runs, shuts>>) /\ Same(TV)
Decide == /\ lpc = "decide"
          /\ lpc' = IF ~shutting /\ (Swi \/ runs = Runs - 1) /\ idle THEN "idle" ELSE "end?"
          /\ Same(<<lock, running, shutting, pend, queue, done, idle, runs, shuts>>) /\ Same(TV)
IdleShut == /\ lpc = "idle" /\ lock = 0 /\ lpc' = "top"
            /\ IF shutting THEN Same(<<queue, shuts>>) ELSE queue' = Append(queue, <<0, runs>>) /\ shuts' = shuts + 1
            /\ shutting' = TRUE
            /\ Same(<<lock, running, pend, done, idle, runs>>) /\ Same(TV)
EndTest == /\ lpc = "end?" /\ lock = 0
           /\ lpc' = IF shutting /\ idle /\ IsIdle THEN "final" ELSE "wait"
           /\ Same(<<lock, running, shutting, pend, queue, done, idle, runs, shuts>>) /\ Same(TV)
Process == /\ lpc = "wait" /\ queue # <<>> /\ done' = Append(done, Head(queue)) /\ queue' = Tail(queue)
           /\ lpc' = "top"
           /\ Same(<<lock, running, shutting, pend, idle, runs, shuts>>) /\ Same(TV)
Final == /\ lpc = "final" /\ lock = 0 /\ queue' = queue \o pend /\ pend' = <<>>
         /\ running' = FALSE /\ shutting' = FALSE /\ lpc' = "out" /\ runs' = runs + 1
         /\ Same(<<lock, done, idle, shuts>>) /\ Same(TV)
TStep(t) == Acquire(t) \/ InEmit(t) \/ InShut(t) \/ Flag(t) \/ Release(t) \/ Wake(t)
LStep == StartRun \/ Top \/ Flush \/ Yielded \/ Decide \/ IdleShut \/ EndTest \/ Process \/ Final
Next == LStep \/ \E t \in Threads : TStep(t)
(* (locks are fair enough: a thread that can often take it does) *)
Fair(t) == SF_vars(TStep(t))
Spec == Init /\ [][Next]_vars /\ WF_vars(LStep) /\ Fair(1) /\ Fair(2)

Every == done \o queue \o pend
Once == IsInjective(Every)
Shutdowns == shuts <= 1
InOrder == \A i, j \in DOMAIN Every : Every[i][1] = Every[j][1] /\ i < j /\ Every[i][1] # 0 => Every[i][2] < Every[j][2]
Queued == \A t \in Threads : \A i \in 1..Len(prog[t]) : i < pos[t] /\ prog[t][i] = "emit" => <<t, i>> \in ToSet(done \o queue)
Asleep == ~running => pend = <<>>
(* every call returns (the last run always ends when idle) *)
Returns == \A t \in Threads : <>(~Active(t))
EndsRun == <>(runs = Runs)
=============================================================================
