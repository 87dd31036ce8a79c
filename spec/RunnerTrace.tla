---------------------------- MODULE RunnerTrace ----------------------------
(* What was seen of launch tests: each trace is one call of the runner, with *)
(* its runs one after the other, the exit code and the status of each test.  *)
EXTENDS Runner, TLC, Json, IOUtils
Traces == JsonDeserialize(IOEnv.TRACE_FILE)
Margin == 250
VARIABLES tid, l, run, times, oks, end
\* times: [up, ready, shut, last] of the current run; oks: what each earlier run allows
vars == <<rvars, tid, l, run, times, oks, end>>
Say(tag, i, pos, what) == PrintT("@@" \o tag \o " " \o ToString(i) \o " " \o ToString(pos) \o " " \o ToString(what))
T == Traces[tid]
Sh == T.runs[run]
NoTimes == [up |-> 0, ready |-> 0, shut |-> 0, last |-> 0]
Init == RInit /\ tid \in DOMAIN Traces /\ l = 0 /\ run = 1 /\ times = NoTimes /\ oks = <<>> /\ end = FALSE
Op == T.ops[l + 1]
\* the run in progress, judged: "yes", "no", "either" successful
ReadySure == ready /\ times.ready - times.up < Sh.timeout - Margin
Judge == IF Sh.skip THEN (IF ph = "none" /\ act = 0 THEN "yes" ELSE "wrong")
         ELSE IF Success(Sh) THEN (IF ready /\ times.ready - times.up > Sh.timeout + Margin THEN "no"
                                   \* it was about to end by itself
                                   ELSE IF ~Sh.lives /\ times.shut < times.last + Margin THEN "either"
                                   ELSE "yes")
         ELSE IF Complete(Sh) /\ ~bad /\ Sh.classes
              \* it closed just before the tests ended
              THEN (IF times.shut < times.last - Margin THEN "no" ELSE "either")
         ELSE "no"
\* a launch that was not to end by itself, ready in time, has all its tests run
Fulfilled == (~Sh.skip /\ Sh.lives /\ Sh.readies /\ ReadySure /\ Sh.classes) => Complete(Sh)
Seen == /\ ~end /\ l < Len(T.ops) /\ Op.run = run
        /\ CASE Op.k = "up" -> Up
             [] Op.k = "start" -> Start(Op.i)
             [] Op.k = "gone" -> Gone(Op.i)
             [] Op.k = "ready" -> Ready
             [] Op.k = "begin" -> Begin(Sh, Op.i) /\ ~Sh.skip
             [] Op.k = "end" -> End(Sh, Op.i)
             [] Op.k = "shutdown" -> Shutdown(Sh)
             [] Op.k = "pbegin" -> PBegin(Sh, Op.i) /\ ~Sh.skip
             [] Op.k = "pend" -> PEnd(Sh, Op.i)
        /\ times' = [times EXCEPT !.up = IF Op.k = "up" THEN Op.ms ELSE @,
                                  !.ready = IF Op.k = "ready" /\ ~ready THEN Op.ms ELSE @,
                                  !.shut = IF Op.k = "shutdown" THEN Op.ms ELSE @,
                                  !.last = IF Op.k \in {"end", "ready"} THEN Op.ms ELSE @]
        /\ l' = l + 1 /\ UNCHANGED <<tid, run, oks, end>>
\* the next run, only if this one did not die
NextRun == /\ ~end /\ run < Len(T.runs) /\ Fulfilled /\ Judge # "wrong"
           /\ oks' = Append(oks, Judge) /\ run' = run + 1
           /\ l < Len(T.ops) => Op.run # run
           /\ ph' = "none" /\ ready' = FALSE /\ act' = 0 /\ cur' = FALSE /\ post' = 0 /\ pcur' = FALSE
           /\ procs' = {} /\ early' = FALSE /\ bad' = FALSE /\ times' = NoTimes
           /\ UNCHANGED <<tid, l, end>>
Verdicts == Append(oks, Judge)
Code == IF \E i \in DOMAIN Verdicts : Verdicts[i] = "no" THEN {1}
        ELSE IF \E i \in DOMAIN Verdicts : Verdicts[i] = "either" THEN {0, 1} ELSE {0}
\* a test reported as passed has run and passed; of a complete run all are reported as they went
StatusOk(r, i, list, st) == \/ st # "passed"
                            \/ list[i] = "good"
Reports == \A r \in DOMAIN T.runs :
             /\ \A i \in DOMAIN T.status[r].active :
                  LET st == T.status[r].active[i] IN
                  CASE st = "passed" -> /\ T.runs[r].active[i] = "good" /\ ~T.runs[r].skip /\ T.runs[r].classes
                                        /\ \E k \in DOMAIN T.ops : T.ops[k].run = r /\ T.ops[k].k = "end" /\ T.ops[k].i = i
                    [] st = "skipped" -> T.runs[r].skip \/ T.runs[r].active[i] = "skip"
                    [] st = "absent" -> ~T.runs[r].classes \/ r > T.lastrun
                    [] OTHER -> ~T.runs[r].skip
             /\ \A i \in DOMAIN T.status[r].post :
                  LET st == T.status[r].post[i] IN
                  CASE st = "passed" -> /\ T.runs[r].post[i] = "good" /\ ~T.runs[r].skip
                                        /\ \E k \in DOMAIN T.ops : T.ops[k].run = r /\ T.ops[k].k = "pend" /\ T.ops[k].i = i
                    [] st = "skipped" -> T.runs[r].skip \/ T.runs[r].post[i] = "skip"
                    [] st = "absent" -> r > T.lastrun
                    [] OTHER -> ~T.runs[r].skip
Finish == /\ ~end /\ l = Len(T.ops) /\ Fulfilled /\ Judge # "wrong"
          \* stopping before the last run is a failure
          /\ (run = Len(T.runs) \/ (Judge \in {"no", "either"} /\ T.code = 1))
          /\ T.code \in Code /\ Reports
          /\ end' = TRUE /\ UNCHANGED <<rvars, tid, l, run, times, oks>>
          /\ Say("ACC", tid, 0, "")
Next == Seen \/ NextRun \/ Finish
Stuck == /\ ~end /\ ~ENABLED Next
Report == Stuck => Say("MIS", tid, l + 1, <<"run", run, "judged", Judge, "fulfilled", Fulfilled, "reports", Reports, "code", Code, "phase", ph, "ready", ready, "active", act, cur, "post", post>>)
Spec == Init /\ [][Next]_vars
=============================================================================
