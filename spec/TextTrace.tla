----------------------------- MODULE TextTrace -----------------------------
(* Texts and what the implementation made of them.                           *)
EXTENDS Text, TLC, Json, IOUtils
Traces == JsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES tid, l
Say(tag, i, pos, what) == PrintT("@@" \o tag \o " " \o ToString(i) \o " " \o ToString(pos) \o " " \o ToString(what))
Ops(i) == Traces[i].ops
Expect(op) == CASE op.o = "parse" -> Parse(op.text)
                [] op.o = "cmd" -> Words(op.text)
                [] op.o = "eval" -> LET r == Parse(op.text) IN [ok |-> r.ok, v |-> Eval(r.p, 1)]
Agrees(op, e) == /\ op.got.ok = e.ok
                 /\ e.ok => CASE op.o = "parse" -> op.got.p = e.p
                              [] op.o = "cmd" -> op.got.w = e.w
                              [] op.o = "eval" -> op.got.v = e.v
Init == tid \in DOMAIN Traces /\ l = 0
Next == /\ l < Len(Ops(tid))
        /\ LET op == Ops(tid)[l + 1]
               e == Expect(op) IN
           /\ IF Agrees(op, e) THEN TRUE ELSE Say("MIS", tid, l + 1, e) /\ FALSE
           /\ l' = l + 1 /\ tid' = tid
           /\ l' = Len(Ops(tid)) => Say("ACC", tid, 0, "")
Spec == Init /\ [][Next]_<<tid, l>>
=============================================================================
