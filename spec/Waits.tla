------------------------------- MODULE Waits -------------------------------
(* Waiting for output, start and exit of processes, and what is recorded.    *)
(* A run is a sequence of arrivals [kind, p, fd, t, s, c], each made between *)
(* the instants s and c, and of waits and reads, made between b and e.       *)
EXTENDS Match
CONSTANT Slack                                      \* longest delay of a release
Outs(arr, k) == SelectSeq(SubSeq(arr, 1, k), LAMBDA a : a.kind = "out")
Had(arr, k, kinds) == {arr[j].p : j \in {i \in 1..k : arr[i].kind \in kinds}}
\* processes the wait is about, after k arrivals
About(procs, arr, k, w) ==
  LET cs == Outs(arr, k) IN
  CASE w.api = "out" -> Selected(procs, {cs[j].p : j \in DOMAIN cs}, w.sel)
    [] w.api \in {"start", "exit"} -> Selected(procs, Had(arr, k, {"start", "exit"}), w.sel)
    [] OTHER -> [v |-> "ok", s |-> {w.sel.i}]
Met(procs, arr, k, w) ==
  LET m == About(procs, arr, k, w)
      cs == Outs(arr, k)
      any(p, fds) == LET t == Stream(cs, 1, p, fds) IN IF w.txt = "" THEN t # "" ELSE Has(t, w.txt) IN
  m.v = "ok" /\
  CASE w.api = "out" -> \E p \in m.s : any(p, {w.fd})
    [] w.api = "start" -> TRUE
    [] w.api = "exit" -> \E p \in m.s : p \in Had(arr, k, {"exit"})
    \* of one process: any output, one stream, start, exit
    [] w.api = "pout" -> \E p \in m.s : p \in Had(arr, k, {"start"}) /\ any(p, {1, 2})
    [] w.api = "pstream" -> \E p \in m.s : any(p, {w.fd})
    [] w.api = "pstart" -> \E p \in m.s : p \in Had(arr, k, {"start"})
    [] w.api = "pexit" -> \E p \in m.s : p \in Had(arr, k, {"exit"})
First(procs, arr, w) ==
  LET ks == {k \in 1..Len(arr) : Met(procs, arr, k, w)} IN
  IF ks = {} THEN 0 ELSE CHOOSE k \in ks : \A j \in ks : k <= j
Greater(a, b) == IF a > b THEN a ELSE b
Answers(procs, arr, w) ==
  LET k == First(procs, arr, w)
      late == w.forever \/ w.e < w.b + w.limit            \* cannot have given up
      seen == \E j \in 1..Len(arr) : arr[j].s <= w.e /\ About(procs, arr, j, w).v = "ok"
      known == \E j \in 1..Len(arr) : arr[j].c < w.b + w.limit /\ About(procs, arr, j, w).v = "ok" IN
    (IF k # 0 /\ arr[k].s <= w.e /\ w.e <= Greater(w.b, arr[k].c) + Slack THEN {"yes"} ELSE {})
    \cup
    (IF ~late /\ w.e <= w.b + w.limit + Slack /\ ~(k # 0 /\ arr[k].c < w.b + w.limit)
     THEN (IF seen THEN {"no"} ELSE {}) \cup (IF w.api = "out" /\ ~known THEN {"nomatch"} ELSE {})
          \cup (IF w.api # "out" THEN {"no"} ELSE {})
     ELSE {})
\* a read gives the first n outputs, of all or of one process
Reads(arr, r) ==
  LET cs == Outs(arr, Len(arr))
      mine == SelectSeq(cs, LAMBDA a : r.p = 0 \/ a.p = r.p)
      ids == [i \in 1..Len(mine) |-> mine[i].id]
      lo == Cardinality({i \in DOMAIN mine : mine[i].c < r.b})
      hi == Cardinality({i \in DOMAIN mine : mine[i].s <= r.e}) IN
  {SubSeq(ids, 1, n) : n \in lo..hi}
\* the last thing recorded of each process
Latest(arr, k, p) ==
  LET js == {j \in 1..k : arr[j].p = p /\ arr[j].kind # "out"} IN
  IF js = {} THEN <<"none", 0>>
  ELSE LET j == CHOOSE j \in js : \A i \in js : i <= j IN <<arr[j].kind, arr[j].code>>
Allowed(run, op) ==
  \* abort: the condition raises an error, or the wait may be cancelled
  CASE op.o = "wait" -> IF op.abort = "raise" THEN {"aborted"}
                        ELSE Answers(run.procs, run.arr, op)
                             \cup (IF op.abort = "cancel" THEN {"aborted"} ELSE {})
    [] op.o = "read" -> Reads(run.arr, op)
    [] op.o = "info" -> {[p \in 1..Len(run.procs) |-> Latest(run.arr, Len(run.arr), p)]}
    [] op.o = "left" -> {0}
=============================================================================
