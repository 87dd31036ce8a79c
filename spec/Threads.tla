------------------------------- MODULE Threads -------------------------------
(* Emitting events and shutting down from any thread: what callers and runs   *)
(* may observe. One launch service; the main thread (0) runs it, others call. *)
EXTENDS Naturals, Sequences, FiniteSets, TLC
None == "none"
(* q: the event queue; calls: thread -> the call it is in; run: "no" before    *)
(* and after runs, "asked" once called, "on" while it is active, "off" when it *)
(* has decided to end; shut: a shutdown was requested in this run              *)
Init0 == [q |-> <<>>, calls |-> [x \in {} |-> 0], run |-> "no", swi |-> TRUE, shut |-> FALSE]
Put(f, x, v) == (x :> v) @@ f
Drop(f, x) == [y \in DOMAIN f \ {x} |-> f[y]]
Begin(s, t, kind, e) == [s EXCEPT !.calls = Put(@, t, [kind |-> kind, e |-> e, r |-> ""])]
Request(s, who) == IF s.run = "on" /\ ~s.shut
                   THEN [s EXCEPT !.shut = TRUE, !.q = Append(@, "shutdown")] ELSE s
(* the call of thread t takes effect *)
Takes(s, t) ==
  LET c == s.calls[t]
      done == [s EXCEPT !.calls = Put(@, t, [c EXCEPT !.r = "ok"])] IN
  CASE c.kind = "emit" -> [done EXCEPT !.q = Append(@, c.e)]
    [] c.kind = "shut" -> Request(done, t)
    [] c.kind = "run" -> [s EXCEPT !.calls = Put(@, t, [c EXCEPT !.r = "refused"])]
(* "run": run() in another thread is always refused, in the main thread while a run is active *)
MayTake(s, t) == s.calls[t].r = "" /\ (s.calls[t].kind = "run" /\ t = 0 => s.run = "on")
CanEnd(s, t, r) == t \in DOMAIN s.calls /\ s.calls[t].r = r
End(s, t) == [s EXCEPT !.calls = Drop(@, t)]
RunCalled(s, swi) == [s EXCEPT !.run = "asked", !.swi = swi]
Start(s) == [s EXCEPT !.run = "on", !.shut = FALSE]
Idle(s) == s.run = "on" /\ s.q = <<>> /\ ~s.shut /\ s.swi
Stop(s) == [s EXCEPT !.run = "off", !.shut = FALSE]
CanStop(s) == s.run = "on" /\ s.shut /\ s.q = <<>>
RunReturned(s) == [s EXCEPT !.run = "no"]
=============================================================================
