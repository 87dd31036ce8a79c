------------------------------ MODULE EngineMC ------------------------------
(* Model checks the engine specification: every behaviour of every program   *)
(* of a bounded family (enumerated by the check, one JSON file) is explored  *)
(* and the properties below are evaluated on its complete history.  They are *)
(* stated over the history only, independently of how Engine computes it.    *)
EXTENDS Engine, Json, IOUtils
Progs == JsonDeserialize(IOEnv.PROG_FILE)
VARIABLES pid, s
vars == <<pid, s>>
Init == pid \in DOMAIN Progs /\ s = Init0(Progs[pid])
Next == s' \in Steps(s) /\ UNCHANGED pid
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

H == s.h
Idx(w) == {i \in DOMAIN H : H[i].w = w}
Before(i, w, id) == Cardinality({j \in 1..(i-1) : H[j].w = w /\ H[j].id = id})
\* index of the event begun last before i
Cur(i) == Max({j \in 1..i : H[j].w = "begin"} \cup {0})

(* C01: events are begun in emission order, each once; handlers in registration order *)
Recs(w) == SelectSeq(H, LAMBDA r : r.w = w)
Fifo == LET e == Recs("emit") b == Recs("begin") IN
        /\ Len(b) <= Len(e)
        /\ \A i \in DOMAIN b : b[i].id = e[i].id
AllProcessed == (s.done /\ ~s.hung) => Len(Recs("begin")) = Len(Recs("emit"))
InvokesOf(i) == SelectSeq(SubSeq(H, i + 1, IF \E j \in Idx("begin") : j > i
                                        THEN Min({j \in Idx("begin") : j > i}) ELSE Len(H)),
                       LAMBDA r : r.w = "invoke")
FailedIn(i) == \E j \in DOMAIN H : j > i /\ Cur(j) = i /\ H[j].w = "fail" /\ H[j].id = H[i].id
MatchingOf(i) == SelectSeq(H[i].xt, LAMBDA r : r.m)
Dispatched == \A i \in Idx("begin") :
  LET v == InvokesOf(i) m == MatchingOf(i) IN
  IF FailedIn(i) THEN Len(v) <= Len(m) /\ \A k \in DOMAIN v : v[k].id = m[k].id
  ELSE [k \in DOMAIN v |-> v[k].id] = [k \in DOMAIN m |-> m[k].id]

(* C02: which handlers an event sees follows from the registrations before it alone *)
User(hid) == Starts(hid, "H")
Regs(i) == {h \in {H[j].id : j \in {k \in 1..(i-1) : H[k].w = "reg"}} :
              Before(i, "reg", h) > Before(i, "unreg", h)}
Snapshot == \A i \in Idx("begin") :
  {H[i].xt[k].id : k \in {k \in DOMAIN H[i].xt : User(H[i].xt[k].id)}} = Regs(i)
Once == \A h \in {H[j].id : j \in Idx("reg")} :
  (\E j \in Idx("reg") : H[j].id = h /\ H[j].xt[2])
    => Cardinality({j \in Idx("invoke") : H[j].id = h}) <= Cardinality({j \in Idx("reg") : H[j].id = h})

(* C09: shutdown *)
Requests == Idx("request")
ShutdownOnce == Cardinality(Requests) <= 1
ShutdownFinal == (s.done /\ ~s.hung) => \E i \in Idx("begin") : Starts(H[i].id, "shut:")

(* C10: the end of a run *)
EndsClean == (s.done /\ ~s.hung) => /\ s.q = <<>> /\ Pending(s) = {} /\ s.cbs = <<>>
                       /\ s.shutting
                       /\ (s.rc = 0) = (Idx("fail") = {})
NotStuck == s.done \/ Steps(s) # {}
\* only processes that nobody stops, or waiting for a shutdown, keep a run from ending
HungFor == s.hung => ~s.shutting
Ends == <>(s.done)

(* C16: timers *)
ShutBegun(i) == \E j \in 1..(i-1) : H[j].w = "begin" /\ Starts(H[j].id, "shut:")
Timers ==
  /\ \A i \in Idx("fire") :
       /\ \E j \in Idx("start") : j < i /\ H[j].id = H[i].id /\ H[i].xt[1] = H[j].xt[2]
       /\ ~\E j \in 1..(i-1) : H[j].w = "cancel" /\ H[j].id = H[i].id
       /\ Before(i, "fire", H[i].id) = 0
  /\ (s.done /\ ~s.hung) => \A i \in Idx("start") :
       \/ \E j \in Idx("fire") : H[j].id = H[i].id
       \/ \E j \in Idx("cancel") : H[j].id = H[i].id
       \/ \E j \in Idx("fail") : Starts(H[j].id, "timer")
  \* in order of due time
  /\ \A i, j \in Idx("fire") : i < j =>
       \A a, b \in Idx("start") : (H[a].id = H[i].id /\ H[b].id = H[j].id) => H[a].xt[2] <= H[b].xt[2]
ShutCancels == \* what is pending when the shutdown event is handled is cancelled by it
  \A k \in Idx("begin") : (Starts(H[k].id, "shut:") /\ ~FailedIn(k)) =>
    \A j \in Idx("start") \cup Idx("startco") :
      (j < k /\ (H[j].w = "startco" \/ H[j].xt[3]) /\ Before(k, "over", H[j].id) = 0)
      => \E c \in Idx("cancel") : H[c].id = H[j].id

(* C28: completion handlers *)
Completions == (s.done /\ ~s.hung) => \A i \in Idx("exec") :
  LET ev == {j \in Idx("emit") : H[j].id = "cmp:" \o H[i].id}
      execs == {j \in Idx("exec") : H[j].id = H[i].id}
      due == {j \in execs : H[j].xt[2]} IN
  /\ Cardinality(ev) = Cardinality(due)
  /\ (\E j \in Idx("over") : H[j].id = H[i].id) =>
        \A e \in ev : e > Min({j \in Idx("over") : H[j].id = H[i].id})

(* C04, C05: what a scoped group leaves behind is what it found.  The check  *)
(* puts probes "<g" and ">g" directly before and after every scoped group.   *)
Probes(pre) == {i \in DOMAIN s.obs : s.obs[i].o = "probe" /\ Starts(s.obs[i].id, pre)}
Scoped == \A i \in Probes("<") :
  LET after == {j \in DOMAIN s.obs : j > i /\ s.obs[j].o = "probe"
                   /\ s.obs[j].id = ">" \o SubSeq(s.obs[i].id, 2, Len(s.obs[i].id))} IN
  after # {} => LET j == Min(after) IN
     s.obs[i].lc = s.obs[j].lc /\ s.obs[i].env = s.obs[j].env

(* Processes *)
Procs == {H[i].id : i \in Idx("startproc")}
NoFail == Idx("fail") = {}
PEv(k, p) == {i \in Idx("emit") : H[i].xt[1] = k /\ H[i].xt[2][1] = p}
PEvI(k, p, n) == {i \in PEv(k, p) : H[i].xt[2][2] = n}
HOf(w, p) == {i \in Idx(w) : H[i].id = p}
(* C11: one start, the output, one exit with the code *)
LifeEvents == \A p \in Procs :
  /\ \A u \in HOf("up", p) : LET n == H[u].xt[1] IN
       /\ Cardinality(PEvI("pstart", p, n)) = 1
       /\ Cardinality(PEvI("pexit", p, n)) = 1
       /\ \A a \in PEvI("pstart", p, n), b \in PEvI("pexit", p, n) :
            /\ a < b
            /\ \E d \in HOf("died", p) : d < b /\ H[d].xt[1] = n /\ H[d].xt[2] = H[b].xt[2][3]
            /\ \A o \in PEvI("pio", p, n) : a < o /\ o < b
            /\ \A o \in HOf("over", p) : b < o
  /\ \A i \in PEv("pstart", p) \cup PEv("pexit", p) \cup PEv("pio", p) :
       \E u \in HOf("up", p) : H[u].xt[1] = H[i].xt[2][2]
  /\ Cardinality(HOf("over", p)) = 1
(* C12: escalation of a process that is asked to stop *)
UserSignals == {i \in Idx("emit") : H[i].xt[1] = "psig" /\ H[i].id # ""}
Escalation == \A p \in Procs :
  LET st == HOf("stop", p)
      sg == SelectSeq(H, LAMBDA r : r.w = "signal" /\ r.id = p)
      got == [i \in DOMAIN sg |-> sg[i].xt] IN
  /\ Cardinality(st) <= 1
  /\ UserSignals = {} =>
      IF st = {} THEN sg = <<>>
      ELSE LET x == H[CHOOSE i \in st : TRUE].xt
               want == (IF x[2] THEN <<<<"SIGINT", x[1]>>>> ELSE <<>>)
                       \o <<<<"SIGTERM", x[1] + x[3]>>, <<"SIGKILL", x[1] + x[3] + x[4]>>>>
               gone == {H[i].xt[3] : i \in HOf("died", p)} IN
           NoFail => /\ IF x[4] > 0 THEN IsPrefix(got, want) \* (else both are due at once)
                        ELSE ToSet(got) \subseteq ToSet(want) /\ IsInjective(got)
                     /\ gone # {} => Len(got) >= Cardinality({j \in DOMAIN want : want[j][2] < Max(gone)})
(* C13: restarts *)
StopsBy(p, t) == \/ \E i \in Idx("request") : TRUE
                 \/ \E i \in Idx("begin") : Starts(H[i].id, "shut:")
                 \/ \E i \in HOf("stop", p) : H[i].xt[1] <= t
Respawns == \A p \in Procs :
  LET x == H[CHOOSE i \in HOf("startproc", p) : TRUE].xt
      sp == SelectSeq(H, LAMBDA r : r.w = "spawn" /\ r.id = p)
      nt == SelectSeq(H, LAMBDA r : r.w = "noticed" /\ r.id = p) IN
  /\ Len(sp) <= IF ~x[2] THEN 1 ELSE IF x[4] < 0 THEN Len(nt) + 1 ELSE x[4] + 1
  /\ \A k \in 2..Len(sp) : sp[k].xt[1] = nt[k - 1].xt[2] + x[3]
  /\ (x[2] /\ Len(nt) >= 1 /\ Len(sp) = Len(nt)) =>
       \/ x[4] >= 0 /\ Len(sp) = x[4] + 1
       \/ StopsBy(p, nt[Len(nt)].xt[2] + x[3])
       \/ \E i \in Idx("nospawn") : H[i].id = p
(* C09: nothing is started or restarted once the shutdown is being handled *)
NoneAfterShutdown == \A b \in Idx("begin") : Starts(H[b].id, "shut:") =>
  /\ \A i \in Idx("startproc") : i < b \/ Cur(i) = b
  /\ \A i \in Idx("spawn") : (i > b /\ Cur(i) > b) => Before(i, "spawn", H[i].id) = 0
(* C14, C15: what is logged and captured is what was written *)
RECURSIVE Cat(_)
Cat(q) == IF q = <<>> THEN "" ELSE q[1].xt[2][4] \o Cat(Tail(q))
Written(p, n, fd) == \* the decoded output of one run of p
  LET d == Decode("", Cat(SelectSeq(H, LAMBDA r : r.w = "emit" /\ r.xt[1] = "pio" /\ r.xt[2][1] = p
                                           /\ r.xt[2][2] = n /\ r.xt[2][3] = fd))) IN
  d.txt \o (IF d.pend # "" THEN "?" ELSE "")
LinesOf(t) == LET c == Cut(t) IN IF c.rest = "" THEN c.lines ELSE Append(c.lines, c.rest)
RECURSIVE AllLines(_, _, _, _), AllText(_, _, _, _)
AllLines(p, fd, n, k) == IF n > k THEN <<>> ELSE LinesOf(Written(p, n, fd)) \o AllLines(p, fd, n + 1, k)
AllText(p, fd, n, k) == IF n > k THEN "" ELSE Written(p, n, fd) \o AllText(p, fd, n + 1, k)
Logged == NoFail => \A p \in Procs : \A fd \in {1, 2} :
  LET lg == SelectSeq(s.obs, LAMBDA o : o.o = "log" /\ o.id = p /\ o.fd = fd)
      k == Max({H[i].xt[1] : i \in HOf("up", p)} \cup {0}) IN
  /\ [i \in DOMAIN lg |-> lg[i].text] = AllLines(p, fd, 1, k)
  /\ s.act[p].cache[fd] = AllText(p, fd, 1, k)
Captured == NoFail => \A i \in DOMAIN s.obs : s.obs[i].o = "cache" =>
  LET p == s.obs[i].of k == Max({H[j].xt[1] : j \in HOf("up", p)} \cup {0}) IN
  /\ Starts(AllText(p, 1, 1, k), s.obs[i].out) /\ Starts(AllText(p, 2, 1, k), s.obs[i].err)
  /\ \A j \in DOMAIN s.obs : (j < i /\ s.obs[j].o = "cache" /\ s.obs[j].of = p) =>
       Starts(s.obs[i].out, s.obs[j].out) /\ Starts(s.obs[i].err, s.obs[j].err)
(* C17: a process event reaches the running processes it selects and no other *)
InstAt(p, i) == LET u == {j \in HOf("up", p) : j < i} IN IF u = {} THEN 0 ELSE H[Max(u)].xt[1]
RunningAt(p, i) == /\ InstAt(p, i) > 0
                   /\ ~\E d \in HOf("died", p) : d < i /\ H[d].xt[1] = InstAt(p, i)
Chosen(m, p, i) ==
  CASE m.t = "all" -> TRUE
    [] m.t = "ids" -> p \in ToSet(m.ids)
    [] m.t = "none" -> FALSE
    [] m.t = "pid" -> m.of = p /\ m.inst = InstAt(p, i)
    [] m.t = "exe" -> EndsWith(H[CHOOSE j \in HOf("startproc", p) : TRUE].xt[5], m.v)
EmitOf(b) == \* emissions and beginnings correspond one to one in order
  LET n == Cardinality({j \in Idx("begin") : j <= b}) IN
  CHOOSE e \in Idx("emit") : Cardinality({j \in Idx("emit") : j <= e}) = n
Targets == \A b \in Idx("begin") :
  LET e == H[EmitOf(b)].xt
      sent == {i \in Idx("signal") : Cur(i) = b} IN
  e[1] = "psig" =>
    /\ \A i \in sent : H[i].xt[1] = e[2][1] /\ Chosen(e[2][2], H[i].id, b) /\ RunningAt(H[i].id, i)
    /\ \A i, j \in sent : H[i].id = H[j].id => i = j
    /\ ~FailedIn(b) => \A p \in Procs :
         (Chosen(e[2][2], p, b) /\ RunningAt(p, b) /\ \E j \in HOf("startproc", p) : j < b)
            => \E i \in sent : H[i].id = p
SignalsOnlyBy == \A i \in Idx("signal") : Cur(i) > 0 /\ H[EmitOf(Cur(i))].xt[1] = "psig"
(* C27: what a process is started with is fixed when its action is executed *)
SameStart == \A i, j \in DOMAIN s.obs :
  (s.obs[i].o = "spawn" /\ s.obs[j].o = "spawn" /\ s.obs[i].id = s.obs[j].id) =>
     [s.obs[i] EXCEPT !.t = 0] = [s.obs[j] EXCEPT !.t = 0]
(* the history only grows, so its properties are evaluated when it is complete *)
Check(name, holds) == holds \/ (PrintT("property " \o name \o " fails") /\ FALSE)
Complete == (s.done /\ ~s.hung) =>
  /\ Check("Fifo", Fifo)
  /\ Check("AllProcessed", AllProcessed)
  /\ Check("Dispatched", Dispatched)
  /\ Check("Snapshot", Snapshot)
  /\ Check("Once", Once)
  /\ Check("ShutdownOnce", ShutdownOnce)
  /\ Check("ShutdownFinal", ShutdownFinal)
  /\ Check("Timers", Timers)
  /\ Check("ShutCancels", ShutCancels)
  /\ Check("Completions", Completions)
  /\ Check("Scoped", Scoped)
  /\ Check("LifeEvents", LifeEvents)
  /\ Check("Escalation", Escalation)
  /\ Check("Respawns", Respawns)
  /\ Check("NoneAfterShutdown", NoneAfterShutdown)
  /\ Check("Logged", Logged)
  /\ Check("Captured", Captured)
  /\ Check("Targets", Targets)
  /\ Check("SignalsOnlyBy", SignalsOnlyBy)
  /\ Check("SameStart", SameStart)

(* C06: nothing of an event is visible outside its handling *)
LocalsClean == (~s.err => s.loc = Empty /\ s.locs = <<>>)
StacksClean == (s.done /\ ~s.hung) /\ Idx("fail") = {} => s.lcs = <<>> /\ s.envs = <<>>
=============================================================================
