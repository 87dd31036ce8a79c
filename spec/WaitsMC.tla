------------------------------ MODULE WaitsMC ------------------------------
(* The protocol of the waits: a lock, a condition and a record that grows.   *)
(* Waiters test under the lock and sleep releasing it; who adds to the       *)
(* record wakes up all of them.  Some give up, some do not.                  *)
EXTENDS Naturals, FiniteSets, Sequences
CONSTANTS Waiters, Patient, Adds, Needs(_)          \* Needs(w): length of the record it waits for
Nobody == "nobody"
Launch == "launch"
VARIABLES lock, record, pc, result, alive           \* alive: the deadline has not passed
vars == <<lock, record, pc, result, alive>>
Met(w) == record >= Needs(w)
Init == /\ lock = Nobody /\ record = 0 /\ alive = [w \in Waiters |-> TRUE]
        /\ pc = [w \in Waiters \cup {Launch} |-> "out"]
        /\ result = [w \in Waiters |-> "none"]
Acquire(w) == /\ pc[w] \in {"out", "woken"} /\ lock = Nobody
              /\ lock' = w /\ pc' = [pc EXCEPT ![w] = "in"] /\ UNCHANGED <<record, result, alive>>
Test(w) == /\ pc[w] = "in" /\ lock = w
           /\ IF Met(w) THEN pc' = [pc EXCEPT ![w] = "done"] /\ result' = [result EXCEPT ![w] = "yes"]
              ELSE IF ~alive[w] THEN pc' = [pc EXCEPT ![w] = "done"] /\ result' = [result EXCEPT ![w] = "no"]
              ELSE pc' = [pc EXCEPT ![w] = "asleep"] /\ UNCHANGED result
           /\ lock' = Nobody /\ UNCHANGED <<record, alive>>
Expire(w) == /\ w \notin Patient /\ alive[w] /\ alive' = [alive EXCEPT ![w] = FALSE]
             /\ pc' = [pc EXCEPT ![w] = IF @ = "asleep" THEN "woken" ELSE @]
             /\ UNCHANGED <<lock, record, result>>
Take == /\ pc[Launch] = "out" /\ record < Adds /\ lock = Nobody
        /\ lock' = Launch /\ pc' = [pc EXCEPT ![Launch] = "in"] /\ UNCHANGED <<record, result, alive>>
Add == /\ pc[Launch] = "in" /\ record' = record + 1 /\ lock' = Nobody
       /\ pc' = [x \in Waiters \cup {Launch} |->
                   IF x = Launch THEN "out" ELSE IF pc[x] = "asleep" THEN "woken" ELSE pc[x]]
       /\ UNCHANGED <<result, alive>>
Next == Take \/ Add \/ \E w \in Waiters : Acquire(w) \/ Test(w) \/ Expire(w)
Spec == /\ Init /\ [][Next]_vars /\ WF_vars(Take) /\ WF_vars(Add)
        /\ \A w \in Waiters : SF_vars(Acquire(w)) /\ WF_vars(Test(w)) /\ WF_vars(Expire(w))
Truth == \A w \in Waiters : /\ result[w] = "yes" => Met(w)
                            /\ result[w] = "no" => ~alive[w]
\* nobody sleeps on what is already there
NoneLeft == \A w \in Waiters : pc[w] = "asleep" => ~Met(w)
Released == \A w \in Waiters : (w \in Patient => Needs(w) <= Adds) => <>(pc[w] = "done")
NeedOf(w) == IF w = "a" THEN 1 ELSE IF w = "b" THEN 2 ELSE IF w = "c" THEN 2 ELSE 9
=============================================================================
