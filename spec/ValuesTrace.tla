---------------------------- MODULE ValuesTrace ----------------------------
(* Substitution trees, conditions and typed values, and what the              *)
(* implementation gave for them.                                              *)
EXTENDS Values, Json, IOUtils
Traces == JsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES tid, l
Say(tag, i, pos, what) == PrintT("@@" \o tag \o " " \o ToString(i) \o " " \o ToString(pos) \o " " \o ToString(what))
Ops(i) == Traces[i].ops
Expect(op) == CASE op.o = "eval" -> Eval(op.n)
                [] op.o = "cond" -> Cond(op.n, op.unless)
                [] op.o = "config" -> Config(op)
                [] op.o = "coerce" -> Coerce(op.text, op.type)
                [] op.o = "typed" -> Perform(op.x, op.type)
RECURSIVE SameValue(_, _)
SameValue(x, y) == x.t = y.t /\ x.v = y.v /\ Len(x.l) = Len(y.l) /\ \A i \in 1..Len(x.l) : SameValue(x.l[i], y.l[i])
Agrees(op, e) == /\ op.got.ok = e.ok
                 /\ e.ok => IF op.o \in {"coerce", "typed"} THEN SameValue(op.got, e) ELSE op.got.v = e.v
Init == tid \in DOMAIN Traces /\ l = 0
Next == /\ l < Len(Ops(tid))
        /\ LET op == Ops(tid)[l + 1]
               e == Expect(op) IN
           /\ IF Agrees(op, e) THEN TRUE ELSE Say("MIS", tid, l + 1, e) /\ FALSE
           /\ l' = l + 1 /\ tid' = tid
           /\ l' = Len(Ops(tid)) => Say("ACC", tid, 0, "")
Spec == Init /\ [][Next]_<<tid, l>>
=============================================================================
