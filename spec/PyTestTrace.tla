---------------------------- MODULE PyTestTrace ----------------------------
(* What was seen of test modules: fixtures, launches, bodies and reports.    *)
EXTENDS PyTest, TLC, Json, IOUtils
Traces == JsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES tid, l, end
vars == <<pvars, tid, l, end>>
Say(tag, i, pos, what) == PrintT("@@" \o tag \o " " \o ToString(i) \o " " \o ToString(pos) \o " " \o ToString(what))
T0 == Traces[tid]
M == T0.module
Init == PInit /\ tid \in DOMAIN Traces /\ l = 0 /\ end = FALSE
Op == T0.ops[l + 1]
\* the test in progress, with its own launch, in the loop of the launch
Here == /\ Op.id = cur.id /\ Op.p = cur.p /\ Op.loop
        /\ Op.n # 0 => Op.n = Inst(M, Cur)
Seen == /\ ~end /\ l < Len(T0.ops)
        /\ CASE Op.k = "start" -> Start(M, <<Op.id, Op.p, Op.n>>)
             [] Op.k = "fx" -> Fixture(M, Op.id, Op.p) /\ Op.n = Len(insts) + 1
             [] Op.k = "up" -> Up(M, Op.n)
             [] Op.k = "ready" -> Ready(M, Op.n)
             [] Op.k = "boom" -> Boom(M, Op.n)
             [] Op.k = "down" -> Down(M, Op.n)
             [] Op.k = "a" -> Part(M, "a", Op.runs) /\ Here
             [] Op.k = "b" -> Part(M, "b", Op.runs) /\ Here
             [] Op.k = "setup" -> Setup(M, Op.out)
             [] Op.k = "call" -> Call(M, Op.out)
             [] Op.k = "teardown" -> Teardown(M, Op.out)
             [] OTHER -> FALSE
        /\ l' = l + 1 /\ UNCHANGED <<tid, end>>
Finish == /\ ~end /\ l = Len(T0.ops) /\ Complete(M)
          /\ end' = TRUE /\ UNCHANGED <<pvars, tid, l>>
          /\ Say("ACC", tid, 0, "")
Next == Seen \/ Finish
Stuck == ~end /\ ~ENABLED Next
Report == Stuck => Say("MIS", tid, l + 1, <<"item", cur, "launches", insts, "left", Items(M) \ done>>)
Spec == Init /\ [][Next]_vars
=============================================================================
