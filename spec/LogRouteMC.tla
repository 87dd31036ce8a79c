----------------------------- MODULE LogRouteMC -----------------------------
(* Every sequence of at most Max operations over two processes.              *)
EXTENDS LogRoute
CONSTANT Max
VARIABLES s, n
Procs == {"a-1", "a-1-stdout"}
Options == {[t |-> "name", v |-> v] : v \in Names \cup {"nope"}}
           \cup {Dict(b, o, e) : b, o \in {<<>>, <<"screen">>, <<"own_log", "log">>},
                                 e \in {<<>>, <<"own_log">>}}
Ops == [o : {"conf"}, p : Procs, opt : Options, ov : {"-"}]
       \cup [o : {"conf"}, p : Procs, opt : {[t |-> "name", v |-> "screen"]}, ov : {"own_log", "nope"}]
       \cup {[o |-> "line", p |-> p, src |-> src, text |-> p \o src \o ToString(n)]
             : p \in Procs, src \in {"stdout", "stderr"}}
       \cup {[o |-> "msg", p |-> "a-1", text |-> "m" \o ToString(n)], [o |-> "reset"],
             [o |-> "rotate", p |-> "a-1.log"]}
IsConf(h, p) == \E i \in DOMAIN h : h[i].o = "conf" /\ h[i].p = p
(* one option per process name, as in every launch run *)
Ok(op) == op.o = "conf" => \A i \in DOMAIN s.h : s.h[i].o = "conf" /\ s.h[i].p = op.p => Chosen(s.h[i]) = Chosen(op)
Init == s = Init0 /\ n = 0
Next == n < Max /\ n' = n + 1 /\ \E op \in Ops : Ok(op) /\ s' = Step(s, op)
Spec == Init /\ [][Next]_<<s, n>>

ConfOf(h, p) == Chosen(h[CHOOSE i \in DOMAIN h : h[i].o = "conf" /\ h[i].p = p])
Before(h, i, p) == \E j \in 1..(i - 1) : h[j].o = "conf" /\ h[j].p = p
Goes(h, i, d) == CASE h[i].o = "conf" -> FALSE
                   [] h[i].o = "rotate" -> FALSE
                   [] \E j \in DOMAIN h : j > i /\ h[j].o = "rotate" /\ h[j].p = d -> FALSE
                   [] h[i].o = "msg" -> d \in {Screen, Shared}
                   [] OTHER -> Before(h, i, h[i].p) /\ d \in To(ConfOf(h, h[i].p), h[i].p, h[i].src)
RECURSIVE Expected(_, _, _)
Expected(h, i, d) == IF i > Len(h) THEN <<>>
                     ELSE (IF Goes(h, i, d) THEN <<h[i].text>> ELSE <<>>) \o Expected(h, i + 1, d)
Dests == {Screen, Shared} \cup UNION {{Own(p, "stdout"), Own(p, "stderr"), Joint(p)} : p \in Procs}
Got(d) == IF d \in DOMAIN s.out THEN s.out[d] ELSE <<>>
(* every destination has exactly the lines routed to it, in order, once *)
Exact == \A d \in Dests : Got(d) = Expected(s.h, 1, d)
NowhereElse == DOMAIN s.out \subseteq Dests
(* an option that is refused changes nothing; resets forget everything *)
=============================================================================
