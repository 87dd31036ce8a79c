--------------------------- MODULE LogRouteTrace ----------------------------
(* Recorded operations and the contents of every destination afterwards.     *)
EXTENDS LogRoute, Json, IOUtils, SequencesExt
Traces == JsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES tid, l, s
Say(tag, i, pos, what) == PrintT("@@" \o tag \o " " \o ToString(i) \o " " \o ToString(pos) \o " " \o ToString(what))
Ops(i) == Traces[i].ops
Contents(s0) == {<<d, s0.out[d]>> : d \in {x \in DOMAIN s0.out : s0.out[x] # <<>>}}
Good(op, s0) == CASE op.o = "look" -> ToSet(op.got) = Contents(s0)
                  [] op.o = "conf" -> op.refused = ~Valid(Chosen(op))
                  [] OTHER -> TRUE
Expect(op, s0) == CASE op.o = "look" -> Contents(s0)
                    [] OTHER -> IF Valid(Chosen(op)) THEN "the option is accepted" ELSE "the option is refused"
Init == tid \in DOMAIN Traces /\ l = 0 /\ s = Init0
Next == /\ l < Len(Ops(tid))
        /\ LET op == Ops(tid)[l + 1] IN
           /\ IF Good(op, s) THEN TRUE ELSE Say("MIS", tid, l + 1, Expect(op, s)) /\ FALSE
           /\ s' = IF op.o = "look" THEN s ELSE Step(s, op)
           /\ l' = l + 1 /\ tid' = tid
           /\ l' = Len(Ops(tid)) => Say("ACC", tid, 0, "")
Spec == Init /\ [][Next]_<<tid, l, s>>
=============================================================================
