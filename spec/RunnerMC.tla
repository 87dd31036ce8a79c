------------------------------ MODULE RunnerMC -----------------------------
(* The runner and the launch, in every order of readiness, deaths and tests. *)
(* Two threads: one tests, one launches; the launch may end at any time.     *)
EXTENDS Runner, TLC
Shapes == {[active |-> a, post |-> p, classes |-> TRUE] : a \in {<<>>, <<"good">>, <<"good", "bad">>, <<"skip", "good">>},
                                         p \in {<<>>, <<"good">>, <<"bad">>}}
VARIABLES shape, tester, launcher, asked, completed, gaveup, report
vars == <<rvars, shape, tester, launcher, asked, completed, gaveup, report>>
Init == /\ RInit /\ shape \in Shapes /\ tester = "waits" /\ launcher = "starts" /\ asked = FALSE
        /\ completed = FALSE /\ gaveup = FALSE /\ report = "none"
Keep == UNCHANGED <<shape, tester, launcher, asked, completed, gaveup, report>>
Launch == launcher = "starts" /\ Up /\ launcher' = "runs" /\ UNCHANGED <<shape, tester, asked, completed, gaveup, report>>
Spawn == launcher = "runs" /\ ph = "up" /\ procs = {} /\ Start(1) /\ Keep
GetReady == launcher = "runs" /\ ph = "up" /\ ~ready /\ Ready /\ Keep
\* asked to, because nothing is left, or because of an error
Close == launcher = "runs" /\ Shutdown(shape) /\ Keep
Die == launcher = "runs" /\ Gone(1) /\ Keep
Return == /\ launcher = "runs" /\ ph = "closing" /\ procs = {} /\ UNCHANGED rvars
          /\ IF completed THEN launcher' = "post" /\ UNCHANGED report
             ELSE launcher' = "done" /\ report' = "failed"
          /\ UNCHANGED <<shape, tester, asked, completed, gaveup>>
GiveUp == /\ tester = "waits" /\ ~ready /\ ph = "up" /\ tester' = "done" /\ gaveup' = TRUE /\ asked' = TRUE
          /\ UNCHANGED <<rvars, shape, launcher, completed, report>>
GoOn == /\ tester = "waits" /\ ready /\ tester' = "tests" /\ UNCHANGED <<rvars, shape, launcher, asked, completed, gaveup, report>>
Test == tester = "tests" /\ \E i \in 1..2 : (Begin(shape, i) \/ End(shape, i)) /\ Keep
Finish == /\ tester = "tests" /\ ActiveDone(shape) /\ tester' = "done" /\ completed' = TRUE /\ asked' = TRUE
          /\ UNCHANGED <<rvars, shape, launcher, gaveup, report>>
Post == launcher = "post" /\ \E i \in 1..2 : (PBegin(shape, i) \/ PEnd(shape, i)) /\ Keep
Report == /\ launcher = "post" /\ Complete(shape) /\ launcher' = "done"
          /\ report' = (IF bad THEN "failed" ELSE "passed")
          /\ UNCHANGED <<rvars, shape, tester, asked, completed, gaveup>>
Next == Launch \/ Spawn \/ GetReady \/ Close \/ Die \/ Return \/ GiveUp \/ GoOn \/ Test \/ Finish \/ Post \/ Report
Spec == Init /\ [][Next]_vars /\ WF_vars(Launch) /\ WF_vars(Close) /\ WF_vars(Die) /\ WF_vars(Return) /\ WF_vars(GetReady)
        /\ WF_vars(GiveUp) /\ WF_vars(GoOn) /\ WF_vars(Test) /\ WF_vars(Finish) /\ WF_vars(Post) /\ WF_vars(Report)
Clean == \A i \in DOMAIN shape.active : shape.active[i] # "bad"
CleanP == \A i \in DOMAIN shape.post : shape.post[i] # "bad"
OnlyIf == report = "passed" => ready /\ act = Len(shape.active) /\ post = Len(shape.post) /\ Clean /\ CleanP
AfterDown == post > 0 => procs = {} /\ ph = "closing"
NotUnready == act > 0 => ready
Reported == <>(report # "none")
=============================================================================
