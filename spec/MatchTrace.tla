----------------------------- MODULE MatchTrace ----------------------------
(* Assertions made on recorded output, and what the implementation answered. *)
EXTENDS Match, TLC, Json, IOUtils
Traces == JsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES tid, l
Say(tag, i, pos, what) == PrintT("@@" \o tag \o " " \o ToString(i) \o " " \o ToString(pos) \o " " \o ToString(what))
Ops(i) == Traces[i].ops
Init == tid \in DOMAIN Traces /\ l = 0
Next == /\ l < Len(Ops(tid))
        /\ LET op == Ops(tid)[l + 1]
               e == Expect(op) IN
           /\ IF \E x \in e : x = op.got THEN TRUE ELSE Say("MIS", tid, l + 1, e) /\ FALSE
           /\ l' = l + 1 /\ tid' = tid
           /\ l' = Len(Ops(tid)) => Say("ACC", tid, 0, "")
Spec == Init /\ [][Next]_<<tid, l>>
=============================================================================
