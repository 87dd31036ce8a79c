------------------------------- MODULE Engine -------------------------------
(***************************************************************************)
(* The launch engine of ros2/launch: event queue, event handlers, entity   *)
(* visiting, context scoping (launch configurations, environment, locals), *)
(* timers, coroutine actions, completion events, shutdown and termination. *)
(*                                                                         *)
(* A state is one record `s`.  The atomic actions are the critical         *)
(* sections of the asyncio run loop: processing one event (nothing is      *)
(* awaited while its handlers run and their entities are visited), one     *)
(* wake-up of a timer or coroutine task, and the run loop's own decisions  *)
(* (idle shutdown, reaction to a failure, exit, letting time pass).        *)
(* Entities are visited by the recursive operator Visit, which follows     *)
(* launch's visit protocol; every observable effect is appended to s.obs.  *)
(*                                                                         *)
(* Programs (launch descriptions) are nested records, see Node kinds at    *)
(* Exec below; they come from the exhaustive enumeration of EngineMC or,   *)
(* with the recorded behaviour of the real code, from EngineTrace.         *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, SequencesExt, FiniteSetsExt

Empty == [x \in {} |-> ""]
Put(f, k, v) == (k :> v) @@ f
Del(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]
Pairs(f) == {<<k, f[k]>> : k \in DOMAIN f}
FromPairs(q) == \* sequence of <<key, value>>, later ones win
  [k \in {q[i][1] : i \in DOMAIN q} |->
     q[CHOOSE i \in DOMAIN q : q[i][1] = k /\ \A j \in DOMAIN q : j > i => q[j][1] # k][2]]

---------------------------------------------------------------------------
(* Text utilities on TLC strings *)
Ch(t, i) == SubSeq(t, i, i)
Starts(t, p) == Len(t) >= Len(p) /\ SubSeq(t, 1, Len(p)) = p
IsWs(c) == c \in {" ", "\t", "\n"}
RECURSIVE LStrip(_), RStrip(_), LowerFrom(_, _)
LStrip(t) == IF Len(t) > 0 /\ IsWs(Ch(t, 1)) THEN LStrip(SubSeq(t, 2, Len(t))) ELSE t
RStrip(t) == IF Len(t) > 0 /\ IsWs(Ch(t, Len(t))) THEN RStrip(SubSeq(t, 1, Len(t) - 1)) ELSE t
Upper == <<"A","B","C","D","E","F","G","H","I","J","K","L","M","N","O","P","Q","R","S","T","U","V","W","X","Y","Z">>
LowerA == <<"a","b","c","d","e","f","g","h","i","j","k","l","m","n","o","p","q","r","s","t","u","v","w","x","y","z">>
LowerC(c) == IF \E i \in 1..26 : Upper[i] = c THEN LowerA[CHOOSE i \in 1..26 : Upper[i] = c] ELSE c
LowerFrom(t, i) == IF i > Len(t) THEN "" ELSE LowerC(Ch(t, i)) \o LowerFrom(t, i + 1)
Lower(t) == LowerFrom(t, 1)

---------------------------------------------------------------------------
(* Values: sequences of parts, evaluated when the action executes.         *)
(*   [t |-> "t", v]  literal                                               *)
(*   [t |-> "lc", n, hd, d]  launch configuration (name parts, default)    *)
(*   [t |-> "env", n, hd, d] environment variable                          *)
(*   [t |-> "dir"], [t |-> "file"]  directory / path of the launch file    *)
Locals(s) == s.loc @@ s.glob          \* locals shadow globals
RECURSIVE Ev(_, _)
EvPart(p, s) ==
  CASE p.t = "t" -> [ok |-> TRUE, v |-> p.v]
    [] p.t = "lc" ->
         LET n == Ev(p.n, s) IN
         IF ~n.ok THEN n
         ELSE IF n.v \in DOMAIN s.lc THEN [ok |-> TRUE, v |-> s.lc[n.v]]
         ELSE IF p.hd THEN Ev(p.d, s) ELSE [ok |-> FALSE, v |-> ""]
    [] p.t = "env" ->
         LET n == Ev(p.n, s) IN
         IF ~n.ok THEN n
         ELSE IF n.v \in DOMAIN s.env THEN [ok |-> TRUE, v |-> s.env[n.v]]
         ELSE IF p.hd THEN Ev(p.d, s) ELSE [ok |-> FALSE, v |-> ""]
    [] p.t = "loc" ->
         IF p.v \in DOMAIN Locals(s) THEN [ok |-> TRUE, v |-> Locals(s)[p.v]]
         ELSE [ok |-> FALSE, v |-> ""]
Ev(ps, s) ==
  IF ps = <<>> THEN [ok |-> TRUE, v |-> ""]
  ELSE LET a == EvPart(Head(ps), s) IN
       IF ~a.ok THEN a
       ELSE LET b == Ev(Tail(ps), s) IN
            IF ~b.ok THEN b ELSE [ok |-> TRUE, v |-> a.v \o b.v]

(* Conditions: [t |-> "none" | "if" | "unless" | "eq" | "ne", ...] *)
BoolText(t) == LET x == Lower(RStrip(LStrip(t))) IN
  IF x \in {"true", "1"} THEN "T" ELSE IF x \in {"false", "0"} THEN "F" ELSE "E"
Cond(c, s) == \* "T", "F" or "E" (error)
  CASE c.t = "none" -> "T"
    [] c.t \in {"if", "unless"} ->
         LET e == Ev(c.v, s) IN
         IF ~e.ok THEN "E"
         ELSE LET b == BoolText(e.v) IN
              IF b = "E" THEN "E"
              ELSE IF c.t = "if" THEN b ELSE IF b = "T" THEN "F" ELSE "T"
    [] c.t \in {"eq", "ne"} ->
         LET e == IF c.isnone THEN [ok |-> TRUE, v |-> ""] ELSE Ev(c.v, s) IN
         IF ~e.ok THEN "E"
         ELSE LET same == IF c.n \in DOMAIN s.lc
                          THEN ~c.isnone /\ s.lc[c.n] = e.v
                          ELSE c.isnone
              IN IF (c.t = "eq") = same THEN "T" ELSE "F"

---------------------------------------------------------------------------
(* Events: [k |-> "inc", body] | [k |-> "usr", name, id] | [k |-> "shut", reason]
         | [k |-> "timer", key] | [k |-> "cmp", id] *)
EvId(e) == CASE e.k = "inc" -> "inc"
             [] e.k = "usr" -> e.id
             [] e.k = "shut" -> "shut:" \o e.reason
             [] e.k = "timer" -> "timer"
             [] e.k = "cmp" -> "cmp:" \o e.id
             [] e.k = "pstart" -> "pstart:" \o e.id \o "." \o ToString(e.inst)
             [] e.k = "pexit" -> "pexit:" \o e.id \o "." \o ToString(e.inst) \o ":" \o ToString(e.code)
             [] e.k = "pio" -> "pio:" \o e.id \o "." \o ToString(e.inst) \o ":" \o ToString(e.fd) \o ":" \o e.text
             [] e.k \in {"psig", "pshut"} -> e.id

(* Handlers: [id, m |-> matcher, once, do |-> what, body] *)
Matches(m, e) ==
  CASE m.t = "inc" -> e.k = "inc"
    [] m.t = "shut" -> e.k = "shut"
    [] m.t = "timer" -> e.k = "timer"
    [] m.t = "usr" -> e.k = "usr" /\ \E i \in DOMAIN m.names : m.names[i] = e.name
    [] m.t = "pev" -> e.k = m.k /\ (m.any \/ \E i \in DOMAIN m.ids : m.ids[i] = e.id)
    [] m.t \in {"psig", "pshut"} -> e.k = m.t
    [] m.t = "cmp" -> e.k = "cmp" /\ ((m.any /\ ~Starts(e.id, "h:"))
                                       \/ \E i \in DOMAIN m.ids : m.ids[i] = e.id)

OfProc(k, p) == [t |-> "pev", k |-> k, any |-> FALSE, ids |-> <<p>>]
InternalP(p, m, what, body) ==
  [id |-> what \o ":" \o p, m |-> m, once |-> FALSE, do |-> what, body |-> body, key |-> p]
Internal(k, t, what, key) ==
  [id |-> k, m |-> [t |-> t], once |-> FALSE, do |-> what, body |-> <<>>, key |-> key]

Obs(s, o) == [s EXCEPT !.obs = Append(@, o)]
(* (compared by w and id first: xt has one type for each of them)          *)
(* s.h is the history of the run: what the properties of EngineMC talk about *)
Hist(s, what, id, x) == [s EXCEPT !.h = Append(@, [w |-> what, id |-> id, xt |-> x])]
Fail(s) == [s EXCEPT !.err = TRUE]
EvX(e) == CASE e.k = "pio" -> <<e.id, e.inst, e.fd, e.text>>
            [] e.k = "pexit" -> <<e.id, e.inst, e.code>>
            [] e.k = "pstart" -> <<e.id, e.inst>>
            [] e.k = "psig" -> <<e.sig, e.m>>
            [] e.k = "pshut" -> <<e.m>>
            [] OTHER -> <<>>
Emit(s, e) == [Hist(s, "emit", EvId(e), <<e.k, EvX(e)>>) EXCEPT !.q = Append(@, e)]
RequestShutdown(s, reason) ==
  IF s.shutting THEN s
  ELSE [Emit(Hist(s, "request", reason, <<>>), [k |-> "shut", reason |-> reason]) EXCEPT
                 !.shutting = TRUE, !.isshut = TRUE]
EmitCmp(s, id) == Emit(s, [k |-> "cmp", id |-> id])
WouldHandleCmp(s, id) == \E i \in DOMAIN s.hs : Matches(s.hs[i].m, [k |-> "cmp", id |-> id])

IndexOf(hs, id) == IF \E i \in DOMAIN hs : hs[i].id = id
                   THEN CHOOSE i \in DOMAIN hs : hs[i].id = id /\ \A j \in 1..(i-1) : hs[j].id # id
                   ELSE 0
Unregister(s, id) ==
  LET i == IndexOf(s.hs, id) IN
  IF i = 0 THEN Fail(s) ELSE [Hist(s, "unreg", id, <<>>) EXCEPT !.hs = RemoveAt(@, i)]

CancelTimer(s, key) ==
  IF key \notin DOMAIN s.act
  THEN [s EXCEPT !.precancel = @ \cup {key}]      \* cancelled before it is executed
  ELSE IF s.act[key].st = "wait"
  THEN [Hist(s, "cancel", key, <<s.clock>>) EXCEPT !.act[key].st = "cancelling"]
  ELSE s
CancelCo(s, key) ==
  IF s.act[key].st = "wait" THEN [Hist(s, "cancel", key, <<s.clock>>) EXCEPT !.act[key].st = "cancelling"] ELSE s

---------------------------------------------------------------------------
(* Texts: "{" and "}" stand for the two bytes of one character, written "E" *)
(* once decoded; "?" is the replacement character.                          *)
RECURSIVE Decode(_, _)
Decode(pend, t) == \* [txt, pend]: decode t after the pending incomplete character
  IF t = "" THEN [txt |-> "", pend |-> pend]
  ELSE LET c == Ch(t, 1) rest == SubSeq(t, 2, Len(t))
           out == IF pend # "" /\ c = "}" THEN "E"
                  ELSE (IF pend # "" THEN "?" ELSE "")
                       \o (IF c = "{" THEN "" ELSE IF c = "}" THEN "?" ELSE c)
           r == Decode(IF c = "{" THEN "{" ELSE "", rest) IN
       [txt |-> out \o r.txt, pend |-> r.pend]
RECURSIVE Cut(_)
Cut(t) == \* [lines, rest]: complete lines (without their end) and the remainder
  IF \E i \in 1..Len(t) : Ch(t, i) = "\n"
  THEN LET i == CHOOSE i \in 1..Len(t) : Ch(t, i) = "\n" /\ \A j \in 1..(i-1) : Ch(t, j) # "\n"
           r == Cut(SubSeq(t, i + 1, Len(t))) IN
       [lines |-> <<SubSeq(t, 1, i - 1)>> \o r.lines, rest |-> r.rest]
  ELSE [lines |-> <<>>, rest |-> t]
RECURSIVE Words(_)
Words(t) == \* split at blanks
  IF t = "" THEN <<>>
  ELSE IF IsWs(Ch(t, 1)) THEN Words(SubSeq(t, 2, Len(t)))
  ELSE LET n == Min({i \in 2..Len(t) : IsWs(Ch(t, i))} \cup {Len(t) + 1}) IN
       <<SubSeq(t, 1, n - 1)>> \o Words(SubSeq(t, n, Len(t)))
RECURSIVE Joined(_)
Joined(q) == IF q = <<>> THEN "" ELSE IF Len(q) = 1 THEN q[1] ELSE q[1] \o " " \o Joined(Tail(q))
EndsWith(t, x) == Len(t) >= Len(x) /\ SubSeq(t, Len(t) - Len(x) + 1, Len(t)) = x
Basename(t) == LET k == {i \in 1..Len(t) : Ch(t, i) = "/"} IN SubSeq(t, Max(k \cup {0}) + 1, Len(t))

(* Processes.  s.act[p].k = "proc"; p identifies the action.  Life of one:   *)
(*  sched (task created) -> spawning -> up -> dead (not noticed yet) ->      *)
(*  (delay ->) spawning ... -> done.  pend: a start is scheduled or going on *)
IsProc(s, p) == p \in DOMAIN s.act /\ s.act[p].k = "proc"
LogLines(s, p, fd, lines) ==
  [s EXCEPT !.obs = @ \o [i \in DOMAIN lines |->
       [o |-> "log", id |-> p, fd |-> fd, text |-> lines[i], t |-> s.clock]]]
Output(s, p, fd, text) == \* an output event of p is handled: log the complete lines
  LET a == s.act[p]
      d == Decode(a.dec[fd], text)
      c == Cut(a.buf[fd] \o d.txt) IN
  LogLines([s EXCEPT !.act[p].dec[fd] = d.pend, !.act[p].buf[fd] = c.rest,
                     !.act[p].cache[fd] = @ \o d.txt], p, fd, c.lines)
FlushFd(s, p, fd) ==
  LET a == s.act[p]
      end == IF a.dec[fd] # "" THEN "?" ELSE ""
      line == a.buf[fd] \o end
      s1 == [s EXCEPT !.act[p].dec[fd] = "", !.act[p].buf[fd] = "",
                      !.act[p].cache[fd] = @ \o end] IN
  IF line = "" THEN s1 ELSE LogLines(s1, p, fd, <<line>>)
Flush(s, p) == FlushFd(FlushFd(s, p, 1), p, 2)

Selects(m, s, p) == \* does the matcher of a process event select p?
  CASE m.t = "all" -> TRUE
    [] m.t = "ids" -> \E i \in DOMAIN m.ids : m.ids[i] = p
    [] m.t = "none" -> FALSE
    [] m.t = "pid" -> m.of = p /\ s.act[p].everup /\ s.act[p].inst = m.inst
    [] m.t = "exe" -> EndsWith(s.act[p].cmd[1], m.v)
Bind(m, s) == \* pids and names are those at the time of the emission
  CASE m.t = "pid" -> IF IsProc(s, m.of) /\ s.act[m.of].everup
                      THEN [t |-> "pid", of |-> m.of, inst |-> s.act[m.of].inst] ELSE [t |-> "none"]
    [] m.t = "name" -> IF IsProc(s, m.of) THEN [t |-> "ids", ids |-> <<m.of>>] ELSE [t |-> "none"]
    [] OTHER -> m

Script(s, p) == LET a == s.act[p] IN
  IF a.spawned >= Len(a.script) THEN Last(a.script) ELSE a.script[a.spawned]
Deliver(s, p, sig) == \* the process gets a signal
  LET s1 == [Hist(s, "signal", p, <<sig, s.clock>>) EXCEPT !.obs = Append(@, [o |-> "sig", id |-> p, inst |-> s.act[p].inst, sig |-> sig,
                                         t |-> s.clock])]
      sc == Script(s, p)
      r == IF sig = "SIGKILL" THEN [d |-> 1, code |-> -9, tail |-> <<>>]
           ELSE IF sig \in DOMAIN sc.on THEN sc.on[sig] ELSE [d |-> -1] IN
  IF r.d < 0 \/ (s.act[p].dying /\ sig # "SIGKILL") THEN s1
  ELSE [s1 EXCEPT !.act[p].dying = TRUE, !.act[p].agenda =
          [i \in DOMAIN r.tail |-> [t |-> s.clock + r.tail[i].t, k |-> "data", fd |-> r.tail[i].fd,
                                    text |-> r.tail[i].text, code |-> 0]]
          \o <<[t |-> s.clock + r.d, k |-> "exit", fd |-> 0, text |-> "", code |-> r.code]>>]
SignalProc(s, p, sig) ==
  LET a == s.act[p] IN
  IF a.st = "done" THEN s
  ELSE IF ~a.everup THEN Fail(s)      \* signalled before it was ever started
  ELSE IF a.st # "up" THEN s          \* gone, or being respawned
  ELSE Deliver(s, p, sig)

---------------------------------------------------------------------------
RECURSIVE EvPairs(_, _)
EvPairs(q, s) == \* evaluate a sequence of <<name parts, value parts>>
  IF q = <<>> THEN [ok |-> TRUE, v |-> <<>>]
  ELSE LET n == Ev(Head(q)[1], s) v == Ev(Head(q)[2], s) r == EvPairs(Tail(q), s) IN
       IF n.ok /\ v.ok /\ r.ok THEN [ok |-> TRUE, v |-> <<<<n.v, v.v>>>> \o r.v]
       ELSE [ok |-> FALSE, v |-> <<>>]
RECURSIVE EvList(_, _)
EvList(q, s) == \* evaluate a sequence of values
  IF q = <<>> THEN [ok |-> TRUE, v |-> <<>>]
  ELSE LET a == Ev(Head(q), s) r == EvList(Tail(q), s) IN
       IF a.ok /\ r.ok THEN [ok |-> TRUE, v |-> <<a.v>> \o r.v] ELSE [ok |-> FALSE, v |-> <<>>]
RECURSIVE EvNames(_, _)
EvNames(q, s) ==
  IF q = <<>> THEN [ok |-> TRUE, v |-> {}]
  ELSE LET n == Ev(Head(q)[1], s) r == EvNames(Tail(q), s) IN
       IF n.ok /\ r.ok THEN [ok |-> TRUE, v |-> {n.v} \cup r.v] ELSE [ok |-> FALSE, v |-> {}]

---------------------------------------------------------------------------
(* Arguments a description declares unconditionally and without default    *)
(* (best effort introspection used by include), as a sequence of           *)
(* [name, req]; a reset of the configurations ends the search at its level *)
RECURSIVE Declared(_, _, _, _)
NoContext(s) == [s EXCEPT !.lc = Empty, !.loc = Empty, !.glob = Empty]
DeclaredIn(n, cond, ild, s) ==   \* of one entity; ild: argument names of the enclosing includes
  LET c2 == cond \/ n.cond.t # "none" IN
  CASE n.k = "declarg" -> <<[name |-> n.name, req |-> ~c2 /\ ~n.hd, ild |-> ild]>>
    [] n.k = "desc" -> Declared(n.body, cond, ild, s)
    [] n.k = "group" -> IF n.scoped /\ ~n.fwd THEN <<>> ELSE Declared(n.body, c2, ild, s)
    [] n.k = "inc" -> Declared(n.body, c2, Append(ild, EvNames(n.args, NoContext(s))), s)
    [] n.k = "timer" -> Declared(n.body, TRUE, ild, s)
    [] OTHER -> <<>>
Declared(ns, cond, ild, s) ==
  IF ns = <<>> THEN <<>>
  ELSE IF Head(ns).k = "resetlc" THEN <<>>
  ELSE DeclaredIn(Head(ns), cond, ild, s) \o Declared(Tail(ns), cond, ild, s)
RECURSIVE AnyMissing(_, _, _)
AnyMissing(ds, seen, given) == \* the first declaration of a name decides
  IF ds = <<>> THEN FALSE
  ELSE LET d == Head(ds)
           r == Tail(ds)
           g == given \cup UNION {d.ild[i].v : i \in DOMAIN d.ild} IN
       IF d.name \in seen \/ ~d.req THEN AnyMissing(r, seen \cup {d.name}, given)
       \* argument names that can not be evaluated yet may be the missing one
       ELSE IF \E i \in DOMAIN d.ild : ~d.ild[i].ok THEN AnyMissing(r, seen \cup {d.name}, given)
       ELSE d.name \notin g \/ AnyMissing(r, seen \cup {d.name}, g)
MissingRequired(ns, given, s) == AnyMissing(Declared(ns, FALSE, <<>>, s), {}, given)

---------------------------------------------------------------------------
(* Visiting.  Exec(n, s) = [s, subs]: the effect of executing entity n and *)
(* the entities it yields.  Node kinds:                                    *)
(*  probe fn raise emit shutdown setlc unsetlc resetlc pushlc poplc setenv *)
(*  unsetenv appendenv resetenv pushenv popenv group inc desc declarg reg  *)
(*  unreg timer cancel co loc glob proc psig pshut cacheq                 *)
NoCond == [t |-> "none"]
Micro(k) == [k |-> k, id |-> "", cond |-> NoCond]
SetMicro(a) == [k |-> "setlc", id |-> "", cond |-> NoCond, n |-> a[1], v |-> a[2]]
Ret(s, subs) == [s |-> s, subs |-> subs]

Exec(n, s) ==
  CASE n.k = "probe" ->
         Ret(Obs(s, [o |-> "probe", id |-> n.id, t |-> s.clock, lc |-> Pairs(s.lc),
                     env |-> Pairs(s.env), loc |-> Pairs(Locals(s))]), <<>>)
    [] n.k \in {"fn", "desc"} -> Ret(s, n.body)
    [] n.k = "raise" -> Ret(Fail(s), <<>>)
    [] n.k = "emit" -> Ret(Emit(s, [k |-> "usr", name |-> n.name, id |-> n.id]), <<>>)
    [] n.k = "shutdown" -> Ret(Emit(s, [k |-> "shut", reason |-> n.id]), <<>>)
    [] n.k = "setlc" ->
         LET a == Ev(n.n, s) b == Ev(n.v, s) IN
         IF a.ok /\ b.ok THEN Ret([s EXCEPT !.lc = Put(@, a.v, b.v)], <<>>) ELSE Ret(Fail(s), <<>>)
    [] n.k = "unsetlc" ->
         LET a == Ev(n.n, s) IN
         IF a.ok THEN Ret([s EXCEPT !.lc = Del(@, a.v)], <<>>) ELSE Ret(Fail(s), <<>>)
    [] n.k = "resetlc" ->
         LET e == EvPairs(n.keep, s) IN
         IF e.ok THEN Ret([s EXCEPT !.lc = FromPairs(e.v)], <<>>) ELSE Ret(Fail(s), <<>>)
    [] n.k = "pushlc" -> Ret([s EXCEPT !.lcs = Append(@, s.lc)], <<>>)
    [] n.k = "poplc" ->
         IF s.lcs = <<>> THEN Ret(Fail(s), <<>>)
         ELSE Ret([s EXCEPT !.lc = Last(s.lcs), !.lcs = Front(@)], <<>>)
    [] n.k = "setenv" ->
         LET a == Ev(n.n, s) b == Ev(n.v, s) IN
         IF a.ok /\ b.ok THEN Ret([s EXCEPT !.env = Put(@, a.v, b.v)], <<>>) ELSE Ret(Fail(s), <<>>)
    [] n.k = "unsetenv" ->
         LET a == Ev(n.n, s) IN
         IF a.ok THEN Ret([s EXCEPT !.env = Del(@, a.v)], <<>>) ELSE Ret(Fail(s), <<>>)
    [] n.k = "appendenv" ->
         LET a == Ev(n.n, s) b == Ev(n.v, s) c == Ev(n.sep, s) IN
         IF ~(a.ok /\ b.ok /\ c.ok) THEN Ret(Fail(s), <<>>)
         ELSE IF a.v \notin DOMAIN s.env THEN Ret([s EXCEPT !.env = Put(@, a.v, b.v)], <<>>)
         ELSE LET o == s.env[a.v] IN
              Ret([s EXCEPT !.env = Put(@, a.v, IF n.pre THEN b.v \o c.v \o o
                                                         ELSE o \o c.v \o b.v)], <<>>)
    [] n.k = "resetenv" -> Ret([s EXCEPT !.env = s.env0], <<>>)
    [] n.k = "pushenv" -> Ret([s EXCEPT !.envs = Append(@, s.env)], <<>>)
    [] n.k = "popenv" ->
         IF s.envs = <<>> THEN Ret(Fail(s), <<>>)
         ELSE Ret([s EXCEPT !.env = Last(s.envs), !.envs = Front(@)], <<>>)
    [] n.k = "group" ->
         LET sets == [i \in DOMAIN n.lcs |-> SetMicro(n.lcs[i])] IN
         Ret(s, IF ~n.scoped THEN sets \o n.body
                ELSE <<Micro("pushlc"), Micro("pushenv")>>
                     \o (IF n.fwd THEN sets
                         ELSE <<Micro("resetenv"),
                                [k |-> "resetlc", id |-> "", cond |-> NoCond, keep |-> n.lcs]>>)
                     \o n.body \o <<Micro("popenv"), Micro("poplc")>>)
    [] n.k = "inc" ->
         LET s1 == [s EXCEPT !.loc = Put(Put(@, "current_launch_file_path", n.file),
                                         "current_launch_file_directory", n.dir)]
             g == EvNames(n.args, s1)
             back == [k |-> "unloc", id |-> "", cond |-> NoCond, old |-> s.loc] IN
         IF ~g.ok \/ MissingRequired(n.body, g.v, s1) THEN Ret(Fail(s1), <<>>)
         ELSE Ret(s1, [i \in DOMAIN n.args |-> SetMicro(n.args[i])]
                      \o <<[k |-> "desc", id |-> "", cond |-> NoCond, body |-> n.body], back>>)
    [] n.k = "unloc" -> \* back in the including file
         LET keys == {"current_launch_file_path", "current_launch_file_directory"}
             rest == [x \in DOMAIN s.loc \ keys |-> s.loc[x]]
             prev == [x \in DOMAIN n.old \cap keys |-> n.old[x]] IN
         Ret([s EXCEPT !.loc = prev @@ rest], <<>>)
    [] n.k = "declarg" ->
         LET d == Ev(n.d, s)
             s1 == IF n.name \in DOMAIN s.lc THEN s
                   ELSE IF n.hd /\ d.ok THEN [s EXCEPT !.lc = Put(@, n.name, d.v)] ELSE Fail(s) IN
         IF s1.err \/ ~n.hc \/ \E i \in DOMAIN n.choices : n.choices[i] = s1.lc[n.name]
         THEN Ret(s1, <<>>) ELSE Ret(Fail(s1), <<>>)
    [] n.k = "reg" -> Ret([Hist(s, "reg", n.h.id, <<n.app, n.h.once>>) EXCEPT !.hs = IF n.app THEN Append(@, n.h) ELSE <<n.h>> \o @], <<>>)
    [] n.k = "unreg" -> Ret(Unregister(s, n.hid), <<>>)
    [] n.k = "loc" -> Ret([s EXCEPT !.loc = Put(@, n.name, n.v)], <<>>)
    [] n.k = "glob" -> Ret([s EXCEPT !.glob = Put(@, n.name, n.v)], <<>>)
    [] n.k = "cancel" -> Ret(CancelTimer(s, n.key), <<>>)
    [] n.k = "evalck" -> IF Ev(n.v, s).ok THEN Ret(s, <<>>) ELSE Ret(Fail(s), <<>>)
    [] n.k \in {"psig", "pshut"} ->
         Ret(Emit(s, [k |-> n.k, id |-> n.id, m |-> Bind(n.m, s),
                      sig |-> IF n.k = "psig" THEN n.sig ELSE ""]), <<>>)
    [] n.k = "cacheq" ->
         Ret(IF IsProc(s, n.of) /\ s.act[n.of].cached
             THEN Obs(s, [o |-> "cache", id |-> n.id, of |-> n.of, t |-> s.clock,
                          out |-> s.act[n.of].cache[1], err |-> s.act[n.of].cache[2]])
             ELSE s, <<>>)
    [] n.k = "proc" ->
         LET cmd == EvList(n.cmd, s)
             pf == Ev(n.pfilter, s)
             pre == Ev(n.prefix, s)
             usepre == ~n.haspf \/ (pf.ok /\ cmd.ok /\ Starts(Basename(cmd.v[1]), pf.v))
             cwd == Ev(n.cwd, s)
             env == IF n.hasenv THEN EvPairs(n.env, s) ELSE [ok |-> TRUE, v |-> <<>>]
             add == EvPairs(n.addenv, s)
             resp == Ev(n.resp, s)
             nm == Ev(n.name, s)
             rb == BoolText(resp.v)
             ok == cmd.ok /\ (~n.haspf \/ pf.ok) /\ (~usepre \/ pre.ok) /\ cwd.ok /\ env.ok
                   /\ add.ok /\ nm.ok /\ resp.ok /\ rb # "E" /\ n.id \notin s.executed
             full == IF usepre THEN Words(pre.v) \o cmd.v ELSE cmd.v
             s0 == [s EXCEPT !.executed = @ \cup {n.id}] IN
         IF ~ok THEN Ret(Fail(s0), <<>>)
         ELSE IF s.isshut THEN Ret(s0, <<>>)
         ELSE IF n.badout THEN Ret(Fail(s0), <<>>)
         ELSE Ret([Hist(s0, "startproc", n.id, <<s.clock, rb = "T", n.delay, n.max, full[1]>>) EXCEPT
                !.hs = <<InternalP(n.id, OfProc("pexit", n.id), "pflush", <<>>),
                         InternalP(n.id, OfProc("pexit", n.id), "nodes", n.onexit),
                         InternalP(n.id, [t |-> "shut"], "ponshut", <<>>),
                         InternalP(n.id, OfProc("pio", n.id), "pout", <<>>),
                         InternalP(n.id, [t |-> "psig"], "psig", <<>>),
                         InternalP(n.id, [t |-> "pshut"], "pshut", <<>>)>> \o @,
                !.act = Put(@, n.id,
                  [k |-> "proc", st |-> "sched", due |-> s.clock, cmp |-> FALSE, cid |-> n.id,
                   body |-> <<>>, loc |-> Empty, script |-> n.script, everup |-> FALSE,
                   pend |-> TRUE, sf |-> FALSE, spawned |-> 0, inst |-> 0, retries |-> 0,
                   respawn |-> rb = "T", delay |-> n.delay, max |-> n.max, cached |-> n.cached,
                   tt |-> n.tt, kt |-> n.kt, dying |-> FALSE, agenda |-> <<>>, code |-> 0,
                   buf |-> <<"", "">>, dec |-> <<"", "">>, cache |-> <<"", "">>,
                   cmd |-> full, name |-> IF n.hasname THEN nm.v ELSE Basename(full[1]),
                   shell |-> n.shell, hascwd |-> n.hascwd, cwd |-> cwd.v,
                   env |-> Pairs(FromPairs(add.v) @@ (IF n.hasenv THEN FromPairs(env.v)
                                                      ELSE s.env))])], <<>>)
    [] n.k = "timer" ->
         LET p == Ev(n.period, s)
             plus == IF "plus" \in DOMAIN n THEN Ev(n.plus, s) ELSE [ok |-> TRUE, v |-> ""]
             ms == s.secs[p.v] + (IF "plus" \in DOMAIN n THEN s.secs[plus.v] ELSE 0) IN
         IF ~p.ok \/ ~plus.ok THEN Ret(Fail(s), <<>>)
         ELSE IF n.id \in s.precancel
         THEN Ret([s EXCEPT !.act = Put(@, n.id, [k |-> "timer", st |-> "cancelling",
                       due |-> s.clock, cmp |-> FALSE, cid |-> n.id, body |-> <<>>,
                       loc |-> Empty])], <<>>)
         ELSE LET h1 == IF s.timerh THEN s.hs
                             ELSE <<Internal("timers", "timer", "timerfire", "")>> \o s.hs
                       h2 == IF n.cos THEN <<Internal("cancel:" \o n.id, "shut", "cancel", n.id)>> \o h1
                                      ELSE h1 IN
                   Ret([Hist(s, "start", n.id, <<s.clock, s.clock + ms, n.cos>>) EXCEPT
                                 !.timerh = TRUE, !.hs = h2,
                                 !.act = Put(@, n.id, [k |-> "timer", st |-> "wait",
                                      due |-> s.clock + ms, cmp |-> FALSE,
                                      cid |-> n.id, body |-> n.body, loc |-> Locals(s)])], <<>>)
    [] n.k = "co" ->
         Ret([Hist(s, "startco", n.id, <<s.clock>>) EXCEPT
                       !.hs = <<Internal("co:" \o n.id, "shut", "cancelco", n.id)>> \o @,
                       !.act = Put(@, n.id, [k |-> "co", st |-> "wait", due |-> s.clock,
                                     cmp |-> FALSE, cid |-> n.id, body |-> n.steps,
                                     loc |-> Empty, begun |-> FALSE])], <<>>)

Async(n) == n.k \in {"timer", "co", "proc"}

RECURSIVE Visit(_, _), VisitAll(_, _)
Visit(n, s) ==
  IF s.err THEN s
  ELSE LET c == Cond(n.cond, s) IN
       IF c = "E" THEN Fail(s)
       ELSE IF c = "F" THEN s
       ELSE LET r == Exec(n, s)
                \* completion of the action itself: emitted after its execution (even a failed
                \* one), or when its asynchronous activity is over
                pend == Async(n) /\ n.id \in DOMAIN r.s.act /\ r.s.act[n.id].st # "done"
                s1 == IF n.id = "" \/ n.k = "desc" \/ ~WouldHandleCmp(r.s, n.id) THEN r.s
                      ELSE IF pend THEN [r.s EXCEPT !.act[n.id].cmp = TRUE]
                      ELSE EmitCmp(r.s, n.id)
                s2 == IF n.id = "" \/ n.k = "desc" THEN s1
                      ELSE Hist(s1, "exec", n.id, <<~pend, WouldHandleCmp(r.s, n.id)>>)
            IN VisitAll(r.subs, s2)
VisitAll(ns, s) == IF ns = <<>> \/ s.err THEN s ELSE VisitAll(Tail(ns), Visit(Head(ns), s))

---------------------------------------------------------------------------
(* Processing one event *)
TermTimer(p, a) == [k |-> "timer", id |-> "h:term:" \o p, cond |-> NoCond, cos |-> FALSE,
  period |-> a.tt, body |-> <<[k |-> "evalck", id |-> "", cond |-> NoCond, v |-> a.tt],
                              [k |-> "psig", id |-> "", cond |-> NoCond, sig |-> "SIGTERM",
                               m |-> [t |-> "ids", ids |-> <<p>>]]>>]
KillTimer(p, a) == [k |-> "timer", id |-> "h:kill:" \o p, cond |-> NoCond, cos |-> FALSE,
  period |-> a.tt, plus |-> a.kt,
  body |-> <<[k |-> "evalck", id |-> "", cond |-> NoCond, v |-> a.tt \o a.kt],
             [k |-> "psig", id |-> "", cond |-> NoCond, sig |-> "SIGKILL",
              m |-> [t |-> "ids", ids |-> <<p>>]]>>]
SigInt(p) == [k |-> "psig", id |-> "", cond |-> NoCond, sig |-> "SIGINT",
              m |-> [t |-> "ids", ids |-> <<p>>]]
StopProc(s, p, send) == \* p is asked to stop
  LET a == s.act[p] IN
  IF a.sf THEN s
  ELSE IF a.st = "done" THEN [s EXCEPT !.act[p].sf = TRUE]
  ELSE IF a.pend
  THEN [s EXCEPT !.hs = <<InternalP(p, OfProc("pstart", p), IF send THEN "pdefer" ELSE "pdefer0",
                                    <<>>)>> \o @]
  ELSE LET t1 == Ev(a.tt, s) t2 == Ev(a.kt, s) IN
       VisitAll(<<TermTimer(p, a), KillTimer(p, a)>> \o (IF send THEN <<SigInt(p)>> ELSE <<>>),
                [Hist(s, "stop", p, <<s.clock, send, IF t1.ok THEN s.secs[t1.v] ELSE 0 - 1,
                                      IF t2.ok THEN s.secs[t2.v] ELSE 0 - 1>>) EXCEPT !.act[p].sf = TRUE])
DueToSigint(e) == e.k = "shut" /\ e.reason = "sigint"

Invoke(h, e, s) ==
  LET s1 == [Hist(s, "invoke", h.id, <<>>) EXCEPT !.locs = Append(@, s.loc), !.loc = Put(@, "event", EvId(e))]
      s2 == IF h.once THEN Unregister(s1, h.id) ELSE s1
      s3 == IF s2.err THEN s2
            ELSE CASE h.do = "nodes" ->
                        IF e.k = "pio" /\ "fd" \in DOMAIN h.m /\ h.m.fd \notin {0, e.fd} THEN s2
                        ELSE VisitAll(h.body, s2)
                   [] h.do = "inc" -> VisitAll(e.body, s2)
                   [] h.do = "svc" -> [s2 EXCEPT !.shutting = TRUE, !.isshut = TRUE]
                   [] h.do = "pflush" -> Flush(s2, h.key)
                   [] h.do = "pout" -> Output(s2, h.key, e.fd, e.text)
                   [] h.do = "psig" -> IF Selects(e.m, s2, h.key) THEN SignalProc(s2, h.key, e.sig)
                                       ELSE s2
                   [] h.do = "pshut" -> IF Selects(e.m, s2, h.key) THEN StopProc(s2, h.key, TRUE)
                                        ELSE s2
                   [] h.do = "ponshut" -> StopProc(s2, h.key, ~DueToSigint(e) \/ s2.nonint)
                   [] h.do = "pdefer" -> StopProc(s2, h.key, TRUE)
                   [] h.do = "pdefer0" -> StopProc(s2, h.key, FALSE)
                   [] h.do = "cancel" -> CancelTimer(s2, h.key)
                   [] h.do = "cancelco" -> CancelCo(s2, h.key)
                   [] h.do = "timerfire" ->
                        LET a == s2.act[e.key] IN
                        VisitAll(a.body, [Hist(s2, "fire", e.key, <<s2.clock>>) EXCEPT !.loc = a.loc @@ @])
  IN [s3 EXCEPT !.loc = Last(s3.locs), !.locs = Front(@)]

RECURSIVE Dispatch(_, _, _)
Dispatch(e, hs, s) ==
  IF hs = <<>> \/ (s.err /\ e.k # "shut") THEN s
  ELSE IF ~Matches(Head(hs).m, e) THEN Dispatch(e, Tail(hs), s)
  ELSE \* the shutdown reaches every handler even if some of them fail
       LET s1 == Invoke(Head(hs), e, [s EXCEPT !.err = FALSE]) IN
       Dispatch(e, Tail(hs), [s1 EXCEPT !.err = @ \/ s.err])

---------------------------------------------------------------------------
(* The run loop *)
Init0(p) ==
  [q |-> [i \in DOMAIN p.pre |-> IF p.pre[i].k = "inc" THEN [k |-> "inc", body |-> p.pre[i].body]
                                 ELSE [k |-> "usr", name |-> p.pre[i].name, id |-> p.pre[i].id]],
   hs |-> <<Internal("svc", "shut", "svc", ""), Internal("inc", "inc", "inc", "")>>,
   lc |-> FromPairs(p.lc0), lcs |-> <<>>, env |-> FromPairs(p.env0), env0 |-> FromPairs(p.env0),
   envs |-> <<>>, loc |-> Empty, glob |-> Empty, locs |-> <<>>, obs |-> <<>>,
   h |-> [i \in DOMAIN p.pre |-> [w |-> "emit", xt |-> <<p.pre[i].k, <<>>>>,
                                  id |-> IF p.pre[i].k = "inc" THEN "inc" ELSE p.pre[i].id]],
   act |-> Empty, cbs |-> <<>>, precancel |-> {}, timerh |-> FALSE, secs |-> FromPairs(p.secs),
   err |-> FALSE, pfail |-> FALSE, cfail |-> FALSE, shutting |-> FALSE, isshut |-> FALSE,
   executed |-> {}, nonint |-> p.nonint,
   clock |-> 0, rc |-> 0, swi |-> p.swi, ext |-> p.ext, done |-> FALSE, hung |-> FALSE]

Pending(s) == {k \in DOMAIN s.act : s.act[k].st # "done"}
Never == 1000000000
DueAt(s, k) ==
  LET a == s.act[k] IN
  IF a.st = "cancelling" THEN s.clock
  ELSE IF a.k # "proc" THEN a.due
  ELSE CASE a.st = "up" -> Min({a.agenda[i].t : i \in DOMAIN a.agenda} \cup {Never})
         [] a.st = "delay" -> IF a.sf THEN s.clock ELSE a.due
         [] OTHER -> a.due
Due(s) == {k \in Pending(s) : DueAt(s, k) <= s.clock}
ExtDue(s) == s.ext # <<>> /\ Head(s.ext).t <= s.clock
Idle(s) == s.q = <<>> /\ s.cbs = <<>> /\ Pending(s) = {} /\ ~s.pfail /\ ~s.cfail

DoEvent(s) ==
  LET e == Head(s.q)
      b == [i \in DOMAIN s.hs |-> [id |-> s.hs[i].id, m |-> Matches(s.hs[i].m, e),
                                   once |-> s.hs[i].once]]
      s1 == Dispatch(e, s.hs, [Hist(s, "begin", EvId(e), b) EXCEPT !.q = Tail(@)])
  IN IF s1.err THEN [Hist(s1, "fail", EvId(e), <<>>) EXCEPT !.err = FALSE, !.pfail = TRUE] ELSE s1

FinishAct(s, k) ==
  LET s1 == [Hist(s, "over", k, <<s.clock>>) EXCEPT !.act[k].st = "done"] IN
  IF s.act[k].cmp THEN [s1 EXCEPT !.cbs = Append(@, s.act[k].cid)] ELSE s1

RECURSIVE RunCo(_, _)
RunCo(s, k) == \* run the coroutine up to its next sleep
  LET b == s.act[k].body IN
  IF b = <<>> THEN FinishAct(s, k)
  ELSE LET st == Head(b) s1 == [s EXCEPT !.act[k].body = Tail(b)] IN
       CASE st.k = "sleep" -> [s1 EXCEPT !.act[k].due = s.clock + st.d]
         [] st.k = "mark" -> RunCo(Obs(s1, [o |-> "co", id |-> k, n |-> st.id, t |-> s.clock]), k)
         [] st.k = "emit" -> RunCo(Emit(s1, [k |-> "usr", name |-> st.name, id |-> st.id]), k)
         [] st.k = "raise" -> FinishAct([Hist(s1, "fail", k, <<>>) EXCEPT !.cfail = TRUE], k)

(* One step of a process and of the task that looks after it *)
CancelIf(s, key) == IF key \in DOMAIN s.act THEN CancelTimer(s, key) ELSE s
ProcOver(s, p) == FinishAct([CancelIf(CancelIf(s, "h:term:" \o p), "h:kill:" \o p) EXCEPT
                                !.act[p].pend = FALSE], p)
Spawn(s, p) ==
  LET a == s.act[p]
      s1 == [s EXCEPT !.act[p].spawned = @ + 1] IN
  IF "emulate_tty" \in DOMAIN s.lc /\ BoolText(s.lc["emulate_tty"]) = "E"
  THEN ProcOver(Hist(s, "nospawn", p, <<s.clock>>), p)
   ELSE [Hist(s1, "spawn", p, <<s.clock>>) EXCEPT !.act[p].st = "spawning", !.act[p].pend = TRUE,
                  !.act[p].due = s.clock + Script(s1, p).latency,
                  !.obs = Append(@, [o |-> "spawn", id |-> p, t |-> s.clock, shell |-> a.shell,
                                     cmd |-> IF a.shell THEN <<Joined(a.cmd)>> ELSE a.cmd,
                                     name |-> a.name,
                                     hascwd |-> a.hascwd, cwd |-> a.cwd, env |-> a.env])]
Up(s, p) ==
  LET a == s.act[p] sc == Script(s, p) IN
  IF sc.fail THEN ProcOver(Hist(s, "nospawn", p, <<s.clock>>), p)
   ELSE Emit([Hist(s, "up", p, <<a.spawned, s.clock>>) EXCEPT !.act[p].st = "up", !.act[p].pend = FALSE, !.act[p].everup = TRUE,
                      !.act[p].inst = a.spawned, !.act[p].dying = FALSE,
                      !.act[p].agenda = [i \in DOMAIN sc.agenda |->
                                           [sc.agenda[i] EXCEPT !.t = @ + s.clock]]],
            [k |-> "pstart", id |-> p, inst |-> a.spawned])
World(s, p) == \* what the process does next
  LET a == s.act[p]
      i == CHOOSE i \in DOMAIN a.agenda :
             /\ \A j \in DOMAIN a.agenda : a.agenda[i].t <= a.agenda[j].t
             /\ \A j \in 1..(i-1) : a.agenda[j].t > a.agenda[i].t
      x == a.agenda[i]
      s1 == [s EXCEPT !.act[p].agenda = RemoveAt(@, i)] IN
  IF x.k = "data"
  THEN Emit(s1, [k |-> "pio", id |-> p, inst |-> a.inst, fd |-> x.fd, text |-> x.text])
  ELSE [Hist(s1, "died", p, <<a.inst, x.code, s.clock>>) EXCEPT
           !.act[p].st = "dead", !.act[p].code = x.code,
           !.act[p].due = s.clock + Script(s, p).lag,
           !.obs = Append(@, [o |-> "died", id |-> p, inst |-> a.inst, code |-> x.code,
                              t |-> s.clock])]
MayRespawn(s, p) == ~s.isshut /\ ~s.act[p].sf
Noticed(s, p) == \* the exit is noticed
  LET a == s.act[p]
       s1 == Emit(Hist(s, "noticed", p, <<a.inst, s.clock>>), [k |-> "pexit", id |-> p, inst |-> a.inst, code |-> a.code]) IN
  IF MayRespawn(s, p) /\ a.respawn /\ (a.max < 0 \/ a.retries < a.max)
  THEN LET s2 == [s1 EXCEPT !.act[p].retries = @ + 1] IN
       IF a.delay > 0 THEN [s2 EXCEPT !.act[p].st = "delay", !.act[p].due = s.clock + a.delay]
       ELSE Spawn(s2, p)
  ELSE ProcOver(s1, p)
DoProc(s, p) ==
  CASE s.act[p].st = "sched" -> Spawn(s, p)
    [] s.act[p].st = "spawning" -> Up(s, p)
    [] s.act[p].st = "up" -> World(s, p)
    [] s.act[p].st = "dead" -> Noticed(s, p)
    [] s.act[p].st = "delay" -> IF MayRespawn(s, p) THEN Spawn(s, p) ELSE ProcOver(s, p)

DoAct(s, k) ==
  LET a == s.act[k] IN
  IF a.k = "proc" THEN DoProc(s, k)
  ELSE IF a.k = "timer" THEN
    IF a.st = "cancelling" THEN FinishAct(s, k)
    ELSE FinishAct(Emit(s, [k |-> "timer", key |-> k]), k)
  ELSE IF a.st = "cancelling" THEN
    \* the coroutine sees the cancellation only if it had started to run
    FinishAct(IF a.begun THEN Obs(s, [o |-> "cocancel", id |-> k, t |-> s.clock]) ELSE s, k)
  ELSE RunCo([s EXCEPT !.act[k].begun = TRUE], k)

NextTime(s) == Min({DueAt(s, k) : k \in Pending(s)}
                   \cup (IF s.ext # <<>> THEN {Head(s.ext).t} ELSE {}) \cup {Never})
Quiet(s) == /\ s.q = <<>> /\ s.cbs = <<>> /\ Due(s) = {} /\ ~ExtDue(s) /\ ~s.pfail /\ ~s.cfail
            /\ (Pending(s) # {} \/ (~s.shutting /\ ~s.swi))

Steps(s) == \* successors of s, each a set of states
  IF s.done THEN {}
  ELSE (IF s.q # <<>> /\ ~s.pfail THEN {DoEvent(s)} ELSE {})
       \cup {DoAct(s, k) : k \in Due(s)}
       \* the done callback of an activity emits its completion event a little later
       \cup (IF s.cbs # <<>> THEN {[EmitCmp(s, Head(s.cbs)) EXCEPT !.cbs = Tail(@)]} ELSE {})
       \cup (IF ExtDue(s) THEN {[RequestShutdown(s, Head(s.ext).k) EXCEPT !.ext = Tail(@)]} ELSE {})
       \cup (IF s.pfail THEN {[RequestShutdown(s, "error") EXCEPT !.pfail = FALSE, !.rc = 1]} ELSE {})
       \cup (IF s.cfail THEN {[RequestShutdown(s, "error") EXCEPT !.cfail = FALSE, !.rc = 1]} ELSE {})
       \cup (IF Idle(s) /\ ~s.shutting /\ s.swi THEN {RequestShutdown(s, "idle")} ELSE {})
       \cup (IF Idle(s) /\ s.shutting
             THEN {Obs([s EXCEPT !.done = TRUE], [o |-> "ret", rc |-> s.rc, t |-> s.clock])} ELSE {})
       \cup (IF Quiet(s) /\ NextTime(s) < Never
             THEN {[s EXCEPT !.clock = NextTime(s)]}
             ELSE {})
       \* nothing will ever happen again
       \cup (IF Quiet(s) /\ NextTime(s) >= Never /\ (Pending(s) # {} \/ (~s.shutting /\ ~s.swi))
             THEN {Obs([s EXCEPT !.done = TRUE, !.hung = TRUE], [o |-> "hang", t |-> s.clock])}
             ELSE {})
=============================================================================
