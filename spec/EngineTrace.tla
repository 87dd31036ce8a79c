----------------------------- MODULE EngineTrace -----------------------------
(* Validates recorded executions of the real launch engine against Engine.  *)
(* The trace file is a JSON array of [prog, obs]; obs entries carry only    *)
(* the fields the calling check compares.  Verdicts are total: "ACC" for    *)
(* every accepted trace, "MIS" (position and what the specification allows  *)
(* there) for every refused observation.                                    *)
EXTENDS Engine, Json, IOUtils
Traces == JsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES tid, l, e, s
vars == <<tid, l, e, s>>

Say(tag, i, pos, what) == PrintT("@@" \o tag \o " " \o ToString(i) \o " " \o ToString(pos) \o " " \o ToString(what))

Same(m, r) ==
  /\ m.o = r.o
  /\ \A f \in DOMAIN r :
       IF f \in {"lc", "env", "loc"} THEN f \in DOMAIN m /\ m[f] = ToSet(r[f])
       ELSE IF f = "ev" THEN "loc" \in DOMAIN m /\ {p \in m.loc : p[1] = "event"} = ToSet(r[f])
       ELSE f \in DOMAIN m /\ m[f] = r[f]

(* the kinds of observations that the calling check compares *)
Keep(i) == ToSet(Traces[i].keep)
Obsv(i) == Traces[i].obs
Fits(i, k, new) ==
  /\ k + Len(new) <= Len(Obsv(i))
  /\ \A j \in DOMAIN new : Same(new[j], Obsv(i)[k + j])

(* Events seen by an observing handler, in order.  It is not reached by an  *)
(* event whose processing fails before.                                     *)
Seen(i) == Traces[i].evs
Processed(s2) == SelectSeq(s2.h, LAMBDA r : r.w = "begin" /\ ~Starts(r.id, "cmp:"))
SeenBy(s2) == \* the possible numbers of events seen after this step
  IF ~Traces[tid].hasevs THEN {0}
  ELSE LET b == Processed(s2) IN
       IF b = <<>> THEN {e}
       ELSE (IF e < Len(Seen(tid)) /\ Seen(tid)[e + 1] = b[1].id THEN {e + 1} ELSE {})
            \cup (IF e > 0 /\ Seen(tid)[e] = b[1].id THEN {e} ELSE {})   \* (repetitions count once)
            \cup (IF s2.pfail THEN {e} ELSE {})
Init == /\ e = 0
        /\ tid \in DOMAIN Traces
        /\ l = 0
        /\ s = Init0(Traces[tid].prog)
FirstMis(i, k, new) == CHOOSE j \in DOMAIN new :
   /\ (k + j > Len(Obsv(i)) \/ ~Same(new[j], Obsv(i)[k + j]))
   /\ \A j2 \in 1..(j-1) : k + j2 <= Len(Obsv(i)) /\ Same(new[j2], Obsv(i)[k + j2])
(* An accepted trace is not explored any further (TLC's registers; one worker).*)
(* One that needs more states than its budget is left undecided.            *)
N == Len(Traces)
ASSUME \A i \in DOMAIN Traces : TLCSet(i, FALSE) /\ TLCSet(N + i, 0)
Within(i) == /\ ~TLCGet(i)
             /\ TLCSet(N + i, TLCGet(N + i) + 1)
             /\ TLCGet(N + i) <= Traces[i].budget
             /\ TLCGet(N + i) = Traces[i].budget => Say("GUP", i, 0, "")
Accept == Say("ACC", tid, 0, "") /\ TLCSet(tid, TRUE)
Next == Within(tid) /\ \E s2 \in Steps(s) :
          LET new == SelectSeq(s2.obs, LAMBDA o : o.o \in Keep(tid)) IN
          /\ IF Fits(tid, l, new) THEN TRUE
             ELSE LET j == FirstMis(tid, l, new) IN Say("MIS", tid, l + j, new[j]) /\ FALSE
          /\ IF SeenBy(s2) # {} THEN TRUE
             ELSE Say("MIS", tid, l + 1, "event " \o Processed(s2)[1].id) /\ FALSE
          /\ e' \in SeenBy(s2)
          /\ tid' = tid
          /\ l' = l + Len(new)
          /\ s' = [s2 EXCEPT !.obs = <<>>, !.h = <<>>]
          /\ (s2.done /\ l' = Len(Obsv(tid)) /\ e' = (IF Traces[tid].hasevs THEN Len(Seen(tid)) ELSE 0)) => Accept
          /\ (s2.done /\ (l' < Len(Obsv(tid)) \/ (Traces[tid].hasevs /\ e' < Len(Seen(tid))))) => Say("MIS", tid, l' + 1, "end of run")
Spec == Init /\ [][Next]_vars
=============================================================================
