---------------------------- MODULE ThreadsTrace -----------------------------
(* Recorded histories of calls, processed events and runs.                    *)
EXTENDS Threads, Json, IOUtils
Traces == JsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES tid, l, s
Say(tag, i, pos, what) == PrintT("@@" \o tag \o " " \o ToString(i) \o " " \o ToString(pos) \o " " \o ToString(what))
Ops(i) == Traces[i].ops
(* (one register per trace: an accepted one is not explored further) *)
Open(i) == TLCGet(10 + i) = 0
Init == /\ \A i \in DOMAIN Traces : TLCSet(10 + i, 0)
        /\ tid \in DOMAIN Traces /\ l = 0 /\ s = Init0
Internal == \/ \E t \in DOMAIN s.calls : MayTake(s, t) /\ s' = Takes(s, t)
            \/ s.run = "asked" /\ s' = Start(s)
            \/ Idle(s) /\ s' = Request(s, 0)
            \/ CanStop(s) /\ s' = Stop(s)
Match(op) ==
  CASE op.o = "begin" -> op.t \notin DOMAIN s.calls /\ s' = Begin(s, op.t, op.kind, op.e)
    [] op.o = "end" -> CanEnd(s, op.t, op.r) /\ s' = End(s, op.t)
    [] op.o = "run" -> s.run = "no" /\ s' = RunCalled(s, op.swi)
    [] op.o = "proc" -> s.run = "on" /\ s.q # <<>> /\ Head(s.q) = op.e /\ s' = [s EXCEPT !.q = Tail(@)]
    [] op.o = "ret" -> s.run = "off" /\ op.rc = 0 /\ s' = RunReturned(s)
    [] OTHER -> FALSE
Next == /\ tid' = tid /\ Open(tid)
        /\ \/ l < Len(Ops(tid)) /\ l' = l /\ Internal
           \/ /\ l < Len(Ops(tid)) /\ l' = l + 1
              /\ IF ENABLED Match(Ops(tid)[l + 1]) THEN TRUE
                 ELSE Say("MIS", tid, l + 1, [queue |-> s.q, run |-> s.run, shut |-> s.shut, calls |-> s.calls]) /\ FALSE
              /\ Match(Ops(tid)[l + 1])
              /\ l' = Len(Ops(tid)) =>
                   IF s'.q = <<>> THEN Say("ACC", tid, 0, "") /\ TLCSet(10 + tid, 1)
                   ELSE Say("MIS", tid, l', "every event is processed")
Spec == Init /\ [][Next]_<<tid, l, s>>
=============================================================================
