------------------------------- MODULE Signals -------------------------------
(* Signal managers (launch.utilities.signal_management): a chain of managers  *)
(* between the wakeup descriptor of the process and the one that was there.   *)
(* A wakeup descriptor is "none", a user's ("u1") or a manager's ("m1").      *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, SequencesExt
CONSTANT LoopOf(_)      \* the event loop a manager was made with
CONSTANT Act(_)         \* what else a handler does

None == "none"
IsManager(w) == w \notin {None} /\ SubSeq(w, 1, 1) = "m"
Empty == [x \in {} |-> <<>>]
At(f, x, d) == IF x \in DOMAIN f THEN f[x] ELSE d
Put(f, x, v) == (x :> v) @@ f
(* fd: the wakeup descriptor; open: the managers, innermost first; prev: what  *)
(* a manager forwards to; hs: handlers; buf: what waits at a descriptor        *)
Init0 == [fd |-> None, open |-> <<>>, prev |-> Empty, hs |-> Empty, buf |-> Empty]

Send(s, w, sigs) == IF w = None THEN s ELSE [s EXCEPT !.buf = Put(@, w, At(@, w, <<>>) \o sigs)]
Enter(s, m) == [s EXCEPT !.open = <<m>> \o @, !.prev = Put(@, m, s.fd), !.fd = m, !.buf = Put(@, m, <<>>)]
(* closing restores what the manager replaced; what it has not yet seen to is *)
(* for the others to handle, but no longer for itself                         *)
Exit(s, m) == LET s1 == [s EXCEPT !.open = Tail(@), !.fd = s.prev[m], !.buf = Put(@, m, <<>>)]
              IN Send(s1, s.prev[m], s.buf[m])
Handle(s, m, sig, h) == [s EXCEPT !.hs = Put(@, <<m, sig>>, h)]
HandlerOf(s, m, sig) == At(s.hs, <<m, sig>>, None)
(* what a user sets within a manager is what the outermost manager forwards to *)
SetFd(s, w) == IF s.open = <<>> THEN [s EXCEPT !.fd = w] ELSE [s EXCEPT !.prev = Put(@, Last(s.open), w)]
GetFd(s) == IF s.open = <<>> THEN s.fd ELSE s.prev[Last(s.open)]
Kill(s, sig) == Send(s, s.fd, <<sig>>)

After(s, h) == LET a == Act(h) IN
  CASE a.t = "handle" -> Handle(s, a.m, a.sig, a.h)
    [] OTHER -> s
(* manager m looks at what arrived: [s, calls] *)
RECURSIVE Calls(_, _, _, _)
Calls(s, m, sigs, calls) ==
  IF sigs = <<>> THEN [s |-> s, calls |-> calls]
  ELSE LET h == HandlerOf(s, m, Head(sigs)) IN
       IF h = None THEN Calls(s, m, Tail(sigs), calls)
       ELSE Calls(After(s, h), m, Tail(sigs), Append(calls, <<m, h, Head(sigs)>>))
Dispatch(s, m) == LET sigs == s.buf[m]
                      r == Calls([s EXCEPT !.buf = Put(@, m, <<>>)], m, sigs, <<>>)
                  IN [s |-> Send(r.s, s.prev[m], sigs), calls |-> r.calls]
Ready(s, loop) == {m \in ToSet(s.open) : LoopOf(m) = loop /\ s.buf[m] # <<>>}
=============================================================================
