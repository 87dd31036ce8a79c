---------------------------- MODULE SignalsTrace -----------------------------
(* Recorded operations on signal managers.                                    *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, SequencesExt, Json, IOUtils
Traces == JsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES tid, l, s, spin
(* managers are named m1a, m2b: the last letter is the loop *)
LoopOf(m) == SubSeq(m, Len(m), Len(m))
(* handlers that do something else are named h<manager>-<signal>-<handler>, split by the harness *)
Acts == [i \in DOMAIN Traces |-> Traces[i].acts]
Act(h) == LET as == {a \in ToSet(Acts[tid]) : a.name = h}
          IN IF as = {} THEN [t |-> "none"] ELSE CHOOSE a \in as : TRUE
S == INSTANCE Signals
Say(tag, i, pos, what) == PrintT("@@" \o tag \o " " \o ToString(i) \o " " \o ToString(pos) \o " " \o ToString(what))
Ops(i) == Traces[i].ops
Label(w) == IF S!IsManager(w) THEN "a manager" ELSE w
(* what the operation must have returned *)
Result(op) ==
  CASE op.o = "handle" -> S!HandlerOf(s, op.m, op.sig)
    [] op.o = "setfd" -> S!GetFd(s)
    [] op.o = "read" -> S!At(s.buf, op.w, <<>>)
    [] op.o = "look" -> <<Label(s.fd), s.open # <<>>, "same">>
    [] op.o = "refused" -> "ValueError"
    [] OTHER -> "ok"
Step(op) ==
  CASE op.o = "enter" -> S!Enter(s, op.m)
    [] op.o = "exit" -> S!Exit(s, op.m)
    [] op.o = "handle" -> S!Handle(s, op.m, op.sig, op.h)
    [] op.o = "setfd" -> S!SetFd(s, op.w)
    [] op.o = "read" -> [s EXCEPT !.buf = S!Put(@, op.w, <<>>)]
    [] op.o = "kill" -> S!Kill(s, op.sig)
    [] OTHER -> s
Init == tid \in DOMAIN Traces /\ l = 0 /\ s = S!Init0 /\ spin = <<>>
Done == l' = Len(Ops(tid)) => Say("ACC", tid, 0, "")
Next ==
  /\ l < Len(Ops(tid))
  /\ tid' = tid
  /\ LET op == Ops(tid)[l + 1] IN
     IF op.o # "spin"
     THEN /\ IF op.r = Result(op) THEN TRUE ELSE Say("MIS", tid, l + 1, Result(op)) /\ FALSE
          /\ s' = Step(op) /\ spin' = <<>> /\ l' = l + 1 /\ Done
     ELSE \/ \E m \in S!Ready(s, op.loop) :
               LET d == S!Dispatch(s, m)
                   calls == spin \o d.calls IN
               /\ IF IsPrefix(calls, op.r) THEN TRUE ELSE Say("MIS", tid, l + 1, calls) /\ FALSE
               /\ s' = d.s /\ spin' = calls /\ l' = l
          \/ /\ S!Ready(s, op.loop) = {}
             /\ IF spin = op.r THEN TRUE ELSE Say("MIS", tid, l + 1, spin) /\ FALSE
             /\ s' = s /\ spin' = <<>> /\ l' = l + 1 /\ Done
Spec == Init /\ [][Next]_<<tid, l, s, spin>>
=============================================================================
