------------------------------- MODULE PyTest ------------------------------
(* The tests of one module run with launch_pytest: fixtures with their       *)
(* launches, tests before and after the shutdown, and what is reported.      *)
EXTENDS Naturals, Sequences, FiniteSets
\* module: [scope, fixtures: seq of [np, launch, auto], tests: seq of
\*   [kind, f, sd, p1, p2, grp, mark]]
\* kind: "plain", "func", "coro", "gen", "agen"; p1: "ok", "fail", "raise", "skip", "none" (nothing is yielded); p2: "ok", "fail", "more"
\* launch: "stay"; "end", "brief" (end by themselves); "err" (fails once ready);
\*         "never" (ends before it is ready), "early" (fails before it is ready), "double" (two ready actions)
VARIABLES cur,     \* the item in progress
          insts,   \* the launches there have been: [key, st, down, bad, fin]
          done,    \* items which are through: <<test, param, number>>
          bada     \* tests whose first part did not pass: <<test, param>>
pvars == <<cur, insts, done, bada>>
None == [id |-> 0, p |-> 0, n |-> 0, st |-> "", a |-> FALSE, b |-> FALSE]
PInit == cur = None /\ insts = <<>> /\ done = {} /\ bada = {}
IsGen(t) == t.kind \in {"gen", "agen"}
Launched(t) == t.kind # "plain" /\ t.mark = "launch"
\* a generator may not be marked as a test after shutdown
Misused(t) == IsGen(t) /\ t.sd
Params(m, t) == IF ~Launched(t) \/ m.fixtures[t.f].np = 0 THEN {0} ELSE 1..m.fixtures[t.f].np
\* the second part is an item of its own, if tests share the launch
TwoItems(m, t) == Launched(t) /\ IsGen(t) /\ m.scope # "function"
Items(m) == UNION {{<<i, p, n>> : p \in Params(m, m.tests[i]), n \in 1..(IF TwoItems(m, m.tests[i]) THEN 2 ELSE 1)}
                   : i \in DOMAIN m.tests}
Key(m, i, p) == LET t == m.tests[i] IN
  CASE m.scope = "function" -> [f |-> t.f, p |-> p, g |-> 0, i |-> i]
    [] m.scope = "class" -> [f |-> t.f, p |-> p, g |-> t.grp, i |-> 0]
    [] OTHER -> [f |-> t.f, p |-> p, g |-> 0, i |-> 0]
Late(m, x) == m.tests[x[1]].sd \/ x[3] = 2
Mates(m, x) == {y \in Items(m) : Launched(m.tests[y[1]]) /\ Key(m, y[1], y[2]) = Key(m, x[1], x[2])}
Inst(m, x) == LET s == {k \in DOMAIN insts : insts[k].key = Key(m, x[1], x[2])} IN
              IF s = {} THEN 0 ELSE CHOOSE k \in s : TRUE
Cur == <<cur.id, cur.p, cur.n>>
T(m) == m.tests[cur.id]
L(m, k) == m.fixtures[insts[k].key.f].launch
\* it ends without being told
ByItself(l) == l \in {"end", "brief", "err", "never", "early"}
Broken(l) == l \in {"never", "early", "double"}
\* instances whose items are all through; the item in progress may be the last
Over(m, k) == \A y \in Items(m) : (Launched(m.tests[y[1]]) /\ Key(m, y[1], y[2]) = insts[k].key) => y = Cur \/ y \in done
Open(k) == ~insts[k].fin
Start(m, x) == /\ cur.id = 0 /\ x \in Items(m) \ done
               /\ Launched(m.tests[x[1]]) =>
                    \A y \in Mates(m, x) \ done :
                      \* those before the shutdown first, and each in the order of the file
                      /\ Late(m, x) => Late(m, y)
                      /\ (Late(m, x) = Late(m, y)) => ~(y[1] < x[1])
               /\ cur' = [None EXCEPT !.id = x[1], !.p = x[2], !.n = x[3], !.st = "start"]
               /\ UNCHANGED <<insts, done, bada>>
Fixture(m, f, p) == /\ cur.id # 0 /\ cur.st = "start" /\ Launched(T(m)) /\ T(m).f = f /\ cur.p = p
                    /\ Inst(m, Cur) = 0
                    /\ insts' = Append(insts, [key |-> Key(m, cur.id, cur.p), st |-> "new", down |-> FALSE,
                                               bad |-> FALSE, fin |-> FALSE])
                    /\ UNCHANGED <<cur, done, bada>>
Mine(m, k) == cur.id # 0 /\ Launched(T(m)) /\ k = Inst(m, Cur) /\ k # 0
Up(m, k) == /\ Mine(m, k) /\ cur.st = "start" /\ insts[k].st = "new" /\ ~insts[k].down
            /\ insts' = [insts EXCEPT ![k].st = "up"] /\ UNCHANGED <<cur, done, bada>>
Ready(m, k) == /\ Mine(m, k) /\ cur.st = "start" /\ insts[k].st = "up" /\ L(m, k) \notin {"never", "early"}
               /\ insts' = [insts EXCEPT ![k].st = "ready"] /\ UNCHANGED <<cur, done, bada>>
\* the launch fails
Boom(m, k) == /\ k \in DOMAIN insts /\ L(m, k) \in {"err", "early"} /\ insts[k].st # "new" /\ ~insts[k].down /\ ~insts[k].bad
              /\ (L(m, k) = "err") => insts[k].st = "ready"
              /\ insts' = [insts EXCEPT ![k].bad = TRUE] /\ UNCHANGED <<cur, done, bada>>
LateNow(m) == Launched(T(m)) /\ (Late(m, Cur) \/ (IsGen(T(m)) /\ m.scope = "function" /\ cur.a)) /\ ~Misused(T(m))
Down(m, k) == /\ k \in DOMAIN insts /\ ~insts[k].down
              /\ \/ ByItself(L(m, k)) /\ insts[k].st # "new"
                 \/ Mine(m, k) /\ cur.st = "set" /\ LateNow(m)
                 \/ cur.st = "called" /\ Over(m, k)
                 \* for the next parameter it is made way
                 \/ cur.st = "start" /\ Over(m, k) /\ ~Mine(m, k)
              /\ insts' = [insts EXCEPT ![k].down = TRUE] /\ UNCHANGED <<cur, done, bada>>
\* launches are given up once their items are through, their failure is reported then
GiveUp(m, ks) == [k \in DOMAIN insts |-> IF k \in ks THEN [insts[k] EXCEPT !.fin = TRUE] ELSE insts[k]]
MayEnd(m) == {k \in DOMAIN insts : Open(k) /\ Over(m, k) /\ insts[k].down}
BadIn(ks) == \E k \in ks : insts[k].bad
Setup(m, out) ==
  /\ cur.id # 0 /\ cur.st = "start"
  /\ LET t == T(m) k == Inst(m, Cur) IN
     \/ /\ out = "failed" /\ Launched(t)
        /\ \E ks \in SUBSET (MayEnd(m) \ {k}) : BadIn(ks) /\ insts' = GiveUp(m, ks)
     \/ /\ \E ks \in SUBSET (MayEnd(m) \ {k}) : (ks # {} => Launched(t)) /\ ~BadIn(ks) /\ insts' = GiveUp(m, ks)
        /\ CASE t.mark = "nofix" -> out = "skipped"
             [] t.kind = "plain" -> out = "passed"
             \* those which come after the first are told when they are called, at the latest
             [] k # 0 /\ Broken(L(m, k)) -> IF Mates(m, Cur) \cap done = {} THEN out = "failed" ELSE out \in {"failed", "passed"}
             [] k # 0 /\ insts[k].st = "ready" -> out = "passed"
             [] OTHER -> FALSE
  /\ cur' = [cur EXCEPT !.st = IF out = "passed" THEN "set" ELSE "called"] /\ UNCHANGED done
  /\ bada' = IF cur.n = 1 /\ TwoItems(m, T(m)) /\ out # "passed"
             THEN bada \cup {<<cur.id, cur.p>>, <<cur.id, cur.p, "not set up">>} ELSE bada
\* a part of a test begins; runs: whether the launch is running then
Part(m, part, runs) ==
  /\ cur.id # 0 /\ cur.st = "set" /\ ~Misused(T(m))
  /\ LET t == T(m) k == Inst(m, Cur) IN
     /\ Launched(t) => ~Broken(L(m, k))
     /\ IF part = "a"
        THEN /\ ~cur.a /\ cur.n = 1 /\ cur' = [cur EXCEPT !.a = TRUE]
             /\ IF ~Launched(t) THEN TRUE
                ELSE IF t.sd THEN insts[k].down /\ ~runs /\ ~insts[k].bad
                ELSE ByItself(L(m, k)) \/ (runs /\ ~insts[k].down)
        ELSE /\ Launched(t) /\ IsGen(t) /\ ~cur.b /\ cur' = [cur EXCEPT !.b = TRUE]
             /\ IF m.scope = "function" THEN cur.a /\ t.p1 = "ok" ELSE cur.n = 2 /\ <<cur.id, cur.p>> \notin bada
             /\ insts[k].down /\ ~runs /\ ~insts[k].bad
  /\ UNCHANGED <<insts, done, bada>>
First(t) == CASE t.p1 = "ok" -> "passed" [] t.p1 = "skip" -> "skipped" [] OTHER -> "failed"
CallOut(m) ==
  LET t == T(m) k == Inst(m, Cur)
      rest == IF insts[k].bad THEN (IF ~cur.b THEN "failed" ELSE "never")
              ELSE IF ~cur.b THEN "never"
              ELSE CASE t.p2 = "ok" -> "passed" [] t.p2 = "skip" -> "skipped" [] OTHER -> "failed" IN
  IF Misused(t) THEN "failed"
  ELSE IF Launched(t) /\ Broken(L(m, k)) THEN "failed"
  ELSE IF cur.n = 2 THEN (IF <<cur.id, cur.p>> \in bada THEN (IF cur.b THEN "never" ELSE "skipped") ELSE rest)
  ELSE IF Launched(t) /\ t.sd /\ insts[k].bad THEN (IF cur.a THEN "never" ELSE "failed")
  ELSE IF ~cur.a THEN "never"
  ELSE IF Launched(t) /\ IsGen(t) /\ m.scope = "function" /\ t.p1 = "ok" THEN rest
  ELSE First(t)
Call(m, out) == /\ cur.id # 0 /\ cur.st = "set" 
                /\ \/ out = CallOut(m)
                   \* the first part was not even tried
                   \/ out = "failed" /\ cur.n = 2 /\ ~cur.b /\ <<cur.id, cur.p, "not set up">> \in bada
                /\ bada' = IF cur.n = 1 /\ TwoItems(m, T(m)) /\ out # "passed" THEN bada \cup {<<cur.id, cur.p>>} ELSE bada
                /\ cur' = [cur EXCEPT !.st = "called"] /\ UNCHANGED <<insts, done>>
\* nothing uses the launch any more, be it other tests of the class or of the module
MustEnd(m, k) == CASE m.scope = "function" -> TRUE
                   [] m.scope = "class" -> \A y \in Items(m) : m.tests[y[1]].grp = insts[k].key.g => y = Cur \/ y \in done
                   [] OTHER -> Items(m) = done \cup {Cur}
Teardown(m, out) ==
  /\ cur.id # 0 /\ cur.st = "called"
  /\ \E ks \in SUBSET MayEnd(m) :
       /\ \A k \in DOMAIN insts : (Open(k) /\ Over(m, k) /\ MustEnd(m, k)) => k \in ks
       /\ out = IF BadIn(ks) THEN "failed" ELSE "passed"
       /\ insts' = GiveUp(m, ks)
  /\ done' = done \cup {Cur} /\ cur' = None /\ UNCHANGED bada
Complete(m) == cur.id = 0 /\ done = Items(m)
\* ---- laws ----
\* every failure is reported, everything ends
AllEnded(m) == Complete(m) => \A k \in DOMAIN insts : insts[k].down /\ insts[k].fin
OneEach == \A i, j \in DOMAIN insts : insts[i].key = insts[j].key => i = j
=============================================================================
