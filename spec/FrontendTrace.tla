--------------------------- MODULE FrontendTrace ---------------------------
(* Documents, whether the implementation loaded them, and what it read.      *)
EXTENDS Frontend, Json, IOUtils
Traces == JsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES tid, l
Say(tag, i, pos, what) == PrintT("@@" \o tag \o " " \o ToString(i) \o " " \o ToString(pos) \o " " \o ToString(what))
Ops(i) == Traces[i].ops
Expect(op) == LET ok == Valid(op.doc, op.syn) IN [ok |-> ok, told |-> IF ok THEN Told(op.doc.kids, 1) ELSE <<>>]
Init == tid \in DOMAIN Traces /\ l = 0
Next == /\ l < Len(Ops(tid))
        /\ LET op == Ops(tid)[l + 1]
               e == Expect(op) IN
           /\ IF op.got.ok = e.ok /\ op.got.told = e.told THEN TRUE ELSE Say("MIS", tid, l + 1, e) /\ FALSE
           /\ l' = l + 1 /\ tid' = tid
           /\ l' = Len(Ops(tid)) => Say("ACC", tid, 0, "")
Spec == Init /\ [][Next]_<<tid, l>>
=============================================================================
