----------------------------- MODULE PyTestMC ------------------------------
(* All orders the specification allows, for small modules.                   *)
EXTENDS PyTest
VARIABLES m
vars == <<pvars, m>>
Tst(k, sd, p1, p2, g) == [kind |-> k, f |-> 1, sd |-> sd, p1 |-> p1, p2 |-> p2, grp |-> g,
                          mark |-> IF k = "plain" THEN "none" ELSE "launch"]
TestSet(g) == {Tst("coro", TRUE, "ok", "ok", g), Tst("gen", FALSE, "ok", "more", g),
               Tst("agen", FALSE, "fail", "ok", g), Tst("plain", FALSE, "ok", "ok", g),
               Tst("func", FALSE, "ok", "ok", g)}
Modules == {[scope |-> s, fixtures |-> <<[np |-> 0, launch |-> la]>>, tests |-> <<a, b>>] :
            s \in {"function", "class", "module"}, la \in {"stay", "end", "err", "early", "never"},
            a \in TestSet(1), b \in TestSet(1) \cup TestSet(2)}
           \cup {[scope |-> "module", fixtures |-> <<[np |-> 2, launch |-> la]>>, tests |-> <<a, b>>] :
            la \in {"stay", "err"}, a \in TestSet(1), b \in {Tst("gen", TRUE, "ok", "ok", 1)}}
Init == PInit /\ m \in Modules
Outs == {"passed", "failed", "skipped"}
Next == /\ UNCHANGED m
        /\ \/ \E x \in Items(m) : Start(m, x)
           \/ \E p \in 0..2 : Fixture(m, 1, p)
           \/ \E k \in DOMAIN insts : Up(m, k) \/ Ready(m, k) \/ Boom(m, k) \/ Down(m, k)
           \/ \E o \in Outs : Setup(m, o) \/ Call(m, o) \/ Teardown(m, o)
           \/ \E q \in {"a", "b"}, r \in BOOLEAN : Part(m, q, r)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
\* the bodies after the shutdown never run with the launch, the others with it
Phases == cur.id # 0 /\ cur.st = "set" /\ Launched(T(m)) /\ L(m, Inst(m, Cur)) = "stay" =>
            LET k == Inst(m, Cur) IN
            /\ cur.b => insts[k].down
            /\ (cur.a /\ T(m).sd) => insts[k].down
            /\ (cur.a /\ ~T(m).sd /\ insts[k].down) => (IsGen(T(m)) /\ m.scope = "function")
\* nothing can be in the way of the items which are left
NeverStuck == Complete(m) \/ ENABLED Next
Closed == AllEnded(m)
Done == <>Complete(m)
=============================================================================
