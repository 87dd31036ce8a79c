----------------------------- MODULE WaitsTrace ----------------------------
(* Waits and reads of a run, and what the implementation answered when.      *)
EXTENDS Waits, TLC, Json, IOUtils
Traces == JsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES tid, l
Say(tag, i, pos, what) == PrintT("@@" \o tag \o " " \o ToString(i) \o " " \o ToString(pos) \o " " \o ToString(what))
Ops(i) == Traces[i].ops
Init == tid \in DOMAIN Traces /\ l = 0
Next == /\ l < Len(Ops(tid))
        /\ LET op == Ops(tid)[l + 1]
               a == Allowed(Traces[tid], op) IN
           /\ IF \E x \in a : x = op.got THEN TRUE ELSE Say("MIS", tid, l + 1, a) /\ FALSE
           /\ l' = l + 1 /\ tid' = tid
           /\ l' = Len(Ops(tid)) => Say("ACC", tid, 0, "")
Spec == Init /\ [][Next]_<<tid, l>>
=============================================================================
