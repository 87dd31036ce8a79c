------------------------------- MODULE Match -------------------------------
(* What the output and exit code assertions of launch_testing accept.        *)
EXTENDS Naturals, Sequences, FiniteSets
At(t, i) == SubSeq(t, i, i)
Sub(t, i, n) == SubSeq(t, i, i + n - 1)
Digit == {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9"}
None == <<0, 0>>                                    \* spans: <<first, after the last>>, from 1

RECURSIVE Find(_, _, _), MatchEnd(_, _, _, _), Search(_, _, _), Norm(_, _), Strip(_, _), Lines(_, _, _, _)
Find(t, x, i) == IF i + Len(x) > Len(t) + 1 THEN 0
                 ELSE IF Sub(t, i, Len(x)) = x THEN i ELSE Find(t, x, i + 1)
Has(t, x) == Find(t, x, 1) # 0
In(c, x) == \E i \in 1..Len(x) : At(x, i) = c

(* patterns: items [cs, neg, rep] tried in order, as many repetitions as     *)
(* possible first                                                           *)
Fits(item, t, p) == p <= Len(t) /\ (In(At(t, p), item.cs) # item.neg)
MatchEnd(items, k, t, p) ==
  IF k > Len(items) THEN p
  ELSE LET it == items[k]
           one == IF Fits(it, t, p) THEN MatchEnd(items, k + 1, t, p + 1) ELSE 0 IN
       CASE it.rep = "1" -> one
         [] it.rep = "?" -> IF one # 0 THEN one ELSE MatchEnd(items, k + 1, t, p)
         [] it.rep = "*" -> LET more == IF Fits(it, t, p) THEN MatchEnd(items, k, t, p + 1) ELSE 0 IN
                            IF more # 0 THEN more ELSE MatchEnd(items, k + 1, t, p)
Search(items, t, i) == IF i > Len(t) + 1 THEN None
                       ELSE LET e == MatchEnd(items, 1, t, i) IN
                            IF e # 0 THEN <<i, e>> ELSE Search(items, t, i + 1)

Norm(t, i) == IF i > Len(t) THEN ""
              ELSE IF i < Len(t) /\ Sub(t, i, 2) = "\r\n" THEN "\n" \o Norm(t, i + 2)
              ELSE At(t, i) \o Norm(t, i + 1)
\* "~" stands for the escape character
EscLen(t, i) == IF i + 3 <= Len(t) /\ Sub(t, i, 2) = "~[" /\ At(t, i + 2) \in Digit
                THEN IF At(t, i + 3) = "m" THEN 4
                     ELSE IF i + 4 <= Len(t) /\ At(t, i + 3) \in Digit /\ At(t, i + 4) = "m" THEN 5 ELSE 0
                ELSE 0
Strip(t, i) == IF i > Len(t) THEN ""
               ELSE IF EscLen(t, i) # 0 THEN Strip(t, i + EscLen(t, i))
               ELSE At(t, i) \o Strip(t, i + 1)
\* lines of a text, with or without their ends; cur: the line being read
Lines(t, i, keep, cur) ==
  IF i > Len(t) THEN (IF cur = "" THEN <<>> ELSE <<cur>>)
  ELSE IF i < Len(t) /\ Sub(t, i, 2) = "\r\n"
       THEN <<(IF keep THEN cur \o "\r\n" ELSE cur)>> \o Lines(t, i + 2, keep, "")
       ELSE IF At(t, i) \in {"\n", "\r"}
       THEN <<(IF keep THEN cur \o At(t, i) ELSE cur)>> \o Lines(t, i + 1, keep, "")
       ELSE Lines(t, i + 1, keep, cur \o At(t, i))

RECURSIVE Text(_, _, _, _), Rest(_, _, _, _, _), LineM(_, _, _, _), LRest(_, _, _, _, _), FirstLine(_, _, _), Join(_, _, _)
\* expectation e in text t from position s
Text(e, t, s, strict) ==
  CASE e.t = "str" -> IF strict THEN (IF SubSeq(t, s, Len(t)) = e.s THEN <<s, s + Len(e.s)>> ELSE None)
                      ELSE LET i == Find(t, e.s, s) IN IF i = 0 THEN None ELSE <<i, i + Len(e.s)>>
    [] e.t = "re" -> IF strict THEN (LET x == MatchEnd(e.items, 1, t, s) IN IF x = 0 THEN None ELSE <<s, x>>)
                     ELSE Search(e.items, t, s)
    [] e.t = "list" -> LET h == Text(e.l[1], t, s, FALSE) IN
                       IF h = None \/ (strict /\ h[1] # s) THEN None
                       ELSE LET r == Rest(e.l, 2, t, h[2], strict) IN IF r = 0 THEN None ELSE <<h[1], r>>
Rest(l, k, t, p, strict) ==
  IF k > Len(l) THEN p
  ELSE LET h == Text(l[k], t, p, FALSE) IN
       IF h = None \/ (strict /\ h[1] # p) THEN 0 ELSE Rest(l, k + 1, t, h[2], strict)
\* expectation e in lines ls from line s
LineOk(e, line, strict) ==
  IF e.t = "str" THEN (IF strict THEN line = e.s ELSE Has(line, e.s)) ELSE MatchEnd(e.items, 1, line, 1) # 0
FirstLine(e, ls, i) == IF i > Len(ls) THEN None
                       ELSE IF LineOk(e, ls[i], FALSE) THEN <<i, i + 1>> ELSE FirstLine(e, ls, i + 1)
LineM(e, ls, s, strict) ==
  IF e.t = "list"
  THEN LET h == LineM(e.l[1], ls, s, FALSE) IN
       IF h = None \/ (strict /\ h[1] # s) THEN None
       ELSE LET r == LRest(e.l, 2, ls, h[2], strict) IN IF r = 0 THEN None ELSE <<h[1], r>>
  ELSE IF strict THEN (IF \A i \in s..Len(ls) : LineOk(e, ls[i], TRUE) THEN <<s, Len(ls) + 1>> ELSE None)
  ELSE FirstLine(e, ls, s)
LRest(l, k, ls, p, strict) ==
  IF k > Len(l) THEN p
  ELSE LET h == LineM(l[k], ls, p, FALSE) IN
       IF h = None \/ (strict /\ h[1] # p) THEN 0 ELSE LRest(l, k + 1, ls, h[2], strict)
Join(ls, i, sep) == IF i > Len(ls) THEN ""
                    ELSE (IF i = 1 THEN "" ELSE sep) \o ls[i] \o Join(ls, i + 1, sep)

(* Which lines a filter keeps: none with a prefix, none matching a pattern   *)
RECURSIVE Keep(_, _, _)
Keep(ls, i, f) ==
  IF i > Len(ls) THEN ""
  ELSE (IF \/ \E k \in 1..Len(f.prefixes) : Len(f.prefixes[k]) <= Len(ls[i]) /\ Sub(ls[i], 1, Len(f.prefixes[k])) = f.prefixes[k]
           \/ \E k \in 1..Len(f.patterns) : MatchEnd(f.patterns[k], 1, ls[i], 1) # 0
        THEN "" ELSE ls[i]) \o Keep(ls, i + 1, f)
Filter(t, f) == IF f.on THEN Keep(Lines(t, 1, TRUE, ""), 1, f) ELSE t

(* Selection among the recorded processes (indices into procs)              *)
ByArgs(sel, pr) ==
  CASE sel.args = "any" -> TRUE
    [] sel.args = "none" -> Len(pr.args) = 0
    [] sel.args = "list" -> \A k \in 1..Len(sel.list) : \E j \in 1..Len(pr.args) : pr.args[j] = sel.list[k]
Selected(procs, recorded, sel) ==
  LET m == CASE sel.by = "all" -> recorded
             [] sel.by = "action" -> recorded \cap {sel.i}
             [] sel.by = "name" -> {i \in recorded : Has(procs[i].name, sel.name) /\ ByArgs(sel, procs[i])} IN
  IF m = {} THEN [v |-> "nomatch", s |-> {}]
  ELSE IF sel.by = "name" /\ sel.strict /\ Cardinality(m) > 1 THEN [v |-> "many", s |-> {}]
  ELSE [v |-> "ok", s |-> m]

(* Chunks [p, fd, t] of the output of several processes                     *)
RECURSIVE Stream(_, _, _, _), Pieces(_, _, _, _)
Stream(chunks, k, p, fds) ==
  IF k > Len(chunks) THEN ""
  ELSE (IF chunks[k].p = p /\ chunks[k].fd \in fds THEN chunks[k].t ELSE "") \o Stream(chunks, k + 1, p, fds)
\* neighbouring chunks of one stream are one piece; done: <<[fd, t]>>
Pieces(chunks, k, p, done) ==
  IF k > Len(chunks) THEN done
  ELSE IF chunks[k].p # p THEN Pieces(chunks, k + 1, p, done)
  ELSE LET n == Len(done) IN
       IF n > 0 /\ done[n].fd = chunks[k].fd
       THEN Pieces(chunks, k + 1, p, [done EXCEPT ![n].t = @ \o chunks[k].t])
       ELSE Pieces(chunks, k + 1, p, Append(done, [fd |-> chunks[k].fd, t |-> chunks[k].t]))
\* one text searched after <<piece, position>>
RECURSIVE Next1(_, _, _, _), SeqRun(_, _, _, _)
Next1(ps, i, p, x) == IF i > Len(ps) THEN <<0, 0>>
                      ELSE LET f == Find(ps[i].t, x, p) IN
                           IF f # 0 THEN <<i, f + Len(x)>> ELSE Next1(ps, i + 1, 1, x)
SeqRun(ps, wants, k, at) ==
  IF k > Len(wants) THEN <<>>
  ELSE LET n == Next1(ps, at[1], at[2], wants[k]) IN
       IF n[1] # 0 THEN <<TRUE>> \o SeqRun(ps, wants, k + 1, n)
       ELSE <<FALSE>> \o SeqRun(ps, wants, k + 1, at)
\* does the text appear in the stream with the last of its characters in chunk k
Completes(chunks, k, txt) ==
  LET p == chunks[k].p
      now == Stream(SubSeq(chunks, 1, k), 1, p, {1})
      was == Len(Stream(SubSeq(chunks, 1, k - 1), 1, p, {1}))
      from == IF was >= Len(txt) THEN was - Len(txt) + 2 ELSE 1 IN
  chunks[k].fd = 1 /\ Has(SubSeq(now, from, Len(now)), txt)

OutputOf(op, p) ==
  LET t == Stream(op.chunks, 1, p, {op.fd}) IN Filter(IF op.strip THEN Strip(t, 1) ELSE t, op.filter)
Recorded(op) == {op.chunks[k].p : k \in DOMAIN op.chunks}
Expect(op) ==
  CASE op.o = "text" ->
         LET t == IF op.given = "text" THEN op.text ELSE Join(op.lines, 1, "\n") IN
         {IF Text(op.e, Norm(IF op.strip THEN Strip(t, 1) ELSE t, 1), 1, op.strict) # None THEN "ok" ELSE "fail"}
    [] op.o = "lines" ->
         LET ls == IF op.given = "text" THEN Lines(op.text, 1, FALSE, "") ELSE op.lines
             c == [i \in 1..Len(ls) |-> IF op.strip THEN Strip(ls[i], 1) ELSE ls[i]] IN
         {IF LineM(op.e, c, 1, op.strict) # None THEN "ok" ELSE "fail"}
    [] op.o = "filter" -> {Filter(op.text, op.filter)}
    [] op.o = "assert" ->
         LET m == Selected(op.procs, Recorded(op), op.sel) IN
         {IF m.v # "ok" THEN m.v
          ELSE IF \E p \in m.s : Text(op.e, Norm(OutputOf(op, p), 1), 1, FALSE) # None THEN "ok" ELSE "fail"}
    [] op.o = "exit" ->
         LET m == Selected(op.procs, {op.ended[k].p : k \in DOMAIN op.ended}, op.sel)
             bad(p) == \E k \in DOMAIN op.ended :
                         op.ended[k].p = p /\ ~(op.ended[k].over /\ \E j \in DOMAIN op.allowed : op.allowed[j] = op.ended[k].code)
             open(p) == \E k \in DOMAIN op.ended : op.ended[k].p = p /\ ~op.ended[k].over IN
         IF m.v # "ok" THEN {m.v}
         ELSE IF \E p \in m.s : open(p) THEN {"fail", "error"}
         ELSE IF \E p \in m.s : bad(p) THEN {"fail"} ELSE {"ok"}
    [] op.o = "seq" ->
         LET m == Selected(op.procs, Recorded(op), op.sel) IN
         IF m.v # "ok" THEN {<<m.v>>}
         ELSE {SeqRun(Pieces(op.chunks, 1, p, <<>>), op.wants, 1, <<1, 1>>) : p \in m.s}
    [] op.o = "proxy" -> {Filter(Stream(op.chunks, 1, op.sel.i, IF op.fd = 0 THEN {1, 2} ELSE {op.fd}), op.filter)}
    [] op.o = "ready" ->
         {[k \in 1..Len(op.chunks) |-> (op.sel.by = "all" \/ op.chunks[k].p = op.sel.i) /\ Completes(op.chunks, k, op.txt)]}
=============================================================================
