------------------------------ MODULE Frontend -----------------------------
(* Which documents are launch files: what may stand where, and what kind of  *)
(* value each attribute takes, in XML and in YAML (C22).                     *)
(*                                                                           *)
(* An element is [tag, attrs, subs, kids, haskids, form]: attributes with a  *)
(* value [t, v] (type and text; in XML everything is text), the elements     *)
(* that belong to it (arguments, choices ...), the actions it contains,      *)
(* whether it lists any, and how it is written in YAML.                      *)
EXTENDS Naturals, Sequences, FiniteSets, TLC
R(k) == [kind |-> k, req |-> TRUE]
O(k) == [kind |-> k, req |-> FALSE]
Entry(as, sub, has) == [attrs |-> as, sub |-> sub, container |-> has]
NameValue == ("name" :> R("subst")) @@ ("value" :> R("subst"))
NoAttrs == [x \in {} |-> O("subst")]
Schema ==
  ("let" :> Entry(NameValue, "", FALSE)) @@
  ("set_env" :> Entry(NameValue, "", FALSE)) @@
  ("unset_env" :> Entry("name" :> R("subst"), "", FALSE)) @@
  ("append_env" :> Entry(NameValue @@ ("prepend" :> O("boolsubst")) @@ ("separator" :> O("subst")), "", FALSE)) @@
  ("reset_env" :> Entry(NoAttrs, "", FALSE)) @@
  ("reset" :> Entry(NoAttrs, "keep", FALSE)) @@
  ("log" :> Entry("message" :> R("subst"), "", FALSE)) @@
  ("shutdown" :> Entry("reason" :> O("subst"), "", FALSE)) @@
  ("include" :> Entry("file" :> R("subst"), "arg", FALSE)) @@
  ("arg" :> Entry(("name" :> R("plain")) @@ ("default" :> O("subst")) @@ ("description" :> O("plain")), "choice", FALSE)) @@
  ("group" :> Entry(("scoped" :> O("bool")) @@ ("forwarding" :> O("bool")), "keep", TRUE)) @@
  ("timer" :> Entry(("period" :> R("floatsubst")) @@ ("cancel_on_shutdown" :> O("boolsubst")), "", TRUE)) @@
  ("executable" :> Entry(("cmd" :> R("cmd")) @@ ("cwd" :> O("subst")) @@ ("name" :> O("subst")) @@
     ("on_exit" :> O("shutdown")) @@ ("launch-prefix" :> O("subst")) @@ ("output" :> O("subst")) @@
     ("respawn" :> O("subst")) @@ ("respawn_max_retries" :> O("int")) @@ ("respawn_delay" :> O("seconds")) @@
     ("sigkill_timeout" :> O("seconds")) @@ ("sigterm_timeout" :> O("seconds")) @@ ("shell" :> O("bool")) @@
     ("emulate_tty" :> O("bool")), "env", FALSE))
Conditions == ("if" :> O("subst")) @@ ("unless" :> O("subst"))
SubSchema == [t \in {"keep", "arg", "env", "choice"} |-> IF t = "choice" THEN "value" :> R("plain") ELSE NameValue]
-----------------------------------------------------------------------------
(* Values.  The texts used, by what they are.                                *)
Malformed == {"$(", "$(nope x)", "$(var", "$(var)", "$(env)", "$(var a b c)", "a$(var a", "$(env 'x)", "$(not)", "$(if a b c d)"}
WithSub == {"$(var a)", "$(var a 'b c')", "x$(env H d)", "$(dirname)", "$(not true)", "$(if 1 a b)"}
Unclosed == {"'a", "a 'b c", "\"x"}
Booleans == {"true", "false", "True", "FALSE", "yes", "no", "on", "off", "Off", "1", "0"}
Integers == {"0", "1", "2", "7", "-2", "12"}
Decimals == {"0.5", "1.5", "-0.5", "1e3", ".25", "-1.0", "1.0", "0.0"}
Negative == {"-2", "-0.5", "-1.0"}
Parses(v) == v \notin Malformed
ValueOk(kind, a, syn) ==
  LET text == a.t = "s" IN
  CASE kind = "subst" -> text /\ Parses(a.v)
    [] kind = "plain" -> text
    [] kind = "cmd" -> text /\ Parses(a.v) /\ a.v \notin Unclosed
    [] kind = "shutdown" -> text /\ a.v = "shutdown"
    [] kind = "bool" -> IF syn = "xml" THEN a.v \in Booleans ELSE a.t = "b"
    [] kind = "int" -> IF syn = "xml" THEN a.v \in Integers ELSE a.t = "i"
    [] kind = "seconds" -> (IF syn = "xml" THEN a.v \in Integers \cup Decimals ELSE a.t = "f") /\ a.v \notin Negative
    \* (what a substitution gives is known only when it is evaluated)
    [] kind = "boolsubst" -> IF syn = "xml" THEN a.v \in Booleans \cup WithSub ELSE a.t = "b" \/ (text /\ a.v \in WithSub)
    [] kind = "floatsubst" -> IF text THEN a.v \in Integers \cup Decimals \cup WithSub ELSE a.t = "f"
Names(as) == {as[i].n : i \in DOMAIN as}
AttrsOk(as, schema, syn) ==
  /\ \A i \in DOMAIN as : as[i].n \in DOMAIN schema /\ ValueOk(schema[as[i].n].kind, as[i], syn)
  /\ \A n \in DOMAIN schema : schema[n].req => n \in Names(as)
SubOk(c, syn) == /\ c.tag \in DOMAIN SubSchema /\ AttrsOk(c.attrs, SubSchema[c.tag], syn)
                 /\ c.subs = <<>> /\ c.kids = <<>> /\ (syn = "yaml" => ~c.haskids /\ c.form = "map")
RECURSIVE ElementOk(_, _)
ElementOk(n, syn) ==
  /\ n.tag \in DOMAIN Schema
  /\ LET s == Schema[n.tag] IN
     /\ AttrsOk(n.attrs, s.attrs @@ Conditions, syn)
     /\ ~({"if", "unless"} \subseteq Names(n.attrs))
     /\ IF syn = "xml"
        THEN \A c \in {(n.subs \o n.kids)[i] : i \in 1..(Len(n.subs) + Len(n.kids))} :
               IF c.tag = s.sub THEN SubOk(c, syn) ELSE s.container /\ ElementOk(c, syn)
        ELSE /\ n.form = "map" \/ (n.form = "list" /\ n.tag = "group")
             /\ n.haskids = s.container
             /\ \A i \in DOMAIN n.subs : n.subs[i].tag = s.sub /\ SubOk(n.subs[i], syn)
             /\ \A i \in DOMAIN n.kids : ElementOk(n.kids[i], syn)
Valid(doc, syn) == doc.root = "launch" /\ \A i \in DOMAIN doc.kids : ElementOk(doc.kids[i], syn)
-----------------------------------------------------------------------------
(* What the accepted document says: the texts of its actions, in order.      *)
Attr(n, name) == LET S == {i \in DOMAIN n.attrs : n.attrs[i].n = name} IN
                 IF S = {} THEN "" ELSE n.attrs[CHOOSE i \in S : TRUE].v
Literal(v) == IF v = "x$(env H d)" THEN "x?" ELSE IF v \in WithSub THEN "?" ELSE v
RECURSIVE Told(_, _)
Told(ns, i) ==
  IF i > Len(ns) THEN <<>>
  ELSE LET n == ns[i] IN
       <<n.tag>> \o (IF n.tag = "log" THEN <<Literal(Attr(n, "message"))>> ELSE <<>>)
       \o (IF n.tag \in {"group", "timer"} THEN Told(SelectSeq(n.subs \o n.kids, LAMBDA c : c.tag # "keep"), 1) ELSE <<>>)
       \o Told(ns, i + 1)
=============================================================================
