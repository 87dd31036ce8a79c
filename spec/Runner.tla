------------------------------- MODULE Runner ------------------------------
(* One run of a launch test: the launch, its readiness, the active tests and *)
(* the tests after shutdown, and what is reported in the end.                *)
EXTENDS Naturals, Sequences, FiniteSets
\* shape of a run: active, post: outcomes of the tests ("good", "bad", "skip")
VARIABLES ph,          \* "none", "up", "closing"
          ready,       \* became ready
          act, cur,    \* active tests begun; one is running
          post, pcur,
          procs,       \* processes running
          early,       \* the launch began to close before the active tests had ended
          bad          \* a test failed
rvars == <<ph, ready, act, cur, post, pcur, procs, early, bad>>
RInit == /\ ph = "none" /\ ready = FALSE /\ act = 0 /\ cur = FALSE /\ post = 0 /\ pcur = FALSE
         /\ procs = {} /\ early = FALSE /\ bad = FALSE
\* (if their class cannot be set up, the tests end without having begun)
ActiveDone(sh) == ready /\ ~cur /\ (act = Len(sh.active) \/ ~sh.classes)
Up == ph = "none" /\ ph' = "up" /\ UNCHANGED <<ready, act, cur, post, pcur, procs, early, bad>>
Start(p) == ph # "none" /\ procs' = procs \cup {p} /\ UNCHANGED <<ph, ready, act, cur, post, pcur, early, bad>>
Gone(p) == p \in procs /\ procs' = procs \ {p} /\ UNCHANGED <<ph, ready, act, cur, post, pcur, early, bad>>
Ready == ph # "none" /\ ready' = TRUE /\ UNCHANGED <<ph, act, cur, post, pcur, procs, early, bad>>
Begin(sh, i) == /\ ready /\ ~cur /\ i = act + 1 /\ i <= Len(sh.active) /\ post = 0
                /\ act' = i /\ cur' = TRUE /\ UNCHANGED <<ph, ready, post, pcur, procs, early, bad>>
End(sh, i) == /\ cur /\ i = act /\ cur' = FALSE /\ bad' = (bad \/ sh.active[i] = "bad")
              /\ UNCHANGED <<ph, ready, act, post, pcur, procs, early>>
Shutdown(sh) == /\ ph = "up" /\ ph' = "closing" /\ early' = ~ActiveDone(sh)
                /\ UNCHANGED <<ready, act, cur, post, pcur, procs, bad>>
\* after the launch: nothing of it runs any more, and no active test
PBegin(sh, i) == /\ ph = "closing" /\ procs = {} /\ ActiveDone(sh) /\ ~pcur /\ i = post + 1 /\ i <= Len(sh.post)
                 /\ post' = i /\ pcur' = TRUE /\ UNCHANGED <<ph, ready, act, cur, procs, early, bad>>
PEnd(sh, i) == /\ pcur /\ i = post /\ pcur' = FALSE /\ bad' = (bad \/ sh.post[i] = "bad")
               /\ UNCHANGED <<ph, ready, act, cur, post, procs, early>>
Complete(sh) == ActiveDone(sh) /\ post = Len(sh.post) /\ ~pcur /\ ph = "closing"
Success(sh) == Complete(sh) /\ ~bad /\ ~early /\ sh.classes
=============================================================================
