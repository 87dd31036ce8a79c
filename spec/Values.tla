------------------------------ MODULE Values -------------------------------
(* What Boolean, comparison and conditional substitutions, conditions and     *)
(* typed evaluation give (C20).  Texts are strings; a typed value is          *)
(* [t |-> kind, v |-> text in a canonical form, l |-> items of a list].       *)
EXTENDS Integers, Sequences, FiniteSets, TLC
At(s, i) == SubSeq(s, i, i)
Digit == {"0","1","2","3","4","5","6","7","8","9"}
LowerOf == [c \in {"A","B","C","D","E","F","G","H","I","J","K","L","M","N","O","P","Q","R","S","T","U","V","W","X","Y","Z"} |->
  CASE c="A"->"a" [] c="B"->"b" [] c="C"->"c" [] c="D"->"d" [] c="E"->"e" [] c="F"->"f" [] c="G"->"g" [] c="H"->"h" [] c="I"->"i"
    [] c="J"->"j" [] c="K"->"k" [] c="L"->"l" [] c="M"->"m" [] c="N"->"n" [] c="O"->"o" [] c="P"->"p" [] c="Q"->"q" [] c="R"->"r"
    [] c="S"->"s" [] c="T"->"t" [] c="U"->"u" [] c="V"->"v" [] c="W"->"w" [] c="X"->"x" [] c="Y"->"y" [] c="Z"->"z"]
RECURSIVE Lower(_), Strip(_), RStrip(_), Without(_, _)
Lower(s) == IF s = "" THEN "" ELSE (IF At(s, 1) \in DOMAIN LowerOf THEN LowerOf[At(s, 1)] ELSE At(s, 1)) \o Lower(SubSeq(s, 2, Len(s)))
White == {" ", "\t", "\n"}
RStrip(s) == IF s # "" /\ At(s, Len(s)) \in White THEN RStrip(SubSeq(s, 1, Len(s) - 1)) ELSE s
Strip(s) == IF s # "" /\ At(s, 1) \in White THEN Strip(SubSeq(s, 2, Len(s))) ELSE RStrip(s)
Without(s, c) == IF s = "" THEN "" ELSE (IF At(s, 1) = c THEN "" ELSE At(s, 1)) \o Without(SubSeq(s, 2, Len(s)), c)
AllIn(s, cs) == \A i \in 1..Len(s) : At(s, i) \in cs
Has(s, c) == \E i \in 1..Len(s) : At(s, i) = c
\* position of the first character of s in cs, from i; 0 if there is none
RECURSIVE First(_, _, _)
First(s, i, cs) == IF i > Len(s) THEN 0 ELSE IF At(s, i) \in cs THEN i ELSE First(s, i + 1, cs)
DigitVal(c) == CASE c="0"->0 [] c="1"->1 [] c="2"->2 [] c="3"->3 [] c="4"->4 [] c="5"->5 [] c="6"->6 [] c="7"->7 [] c="8"->8 [] c="9"->9
                 [] c="a"->10 [] c="b"->11 [] c="c"->12 [] c="d"->13 [] c="e"->14 [] c="f"->15
RECURSIVE Num(_, _)
Num(s, base) == IF s = "" THEN 0 ELSE base * Num(SubSeq(s, 1, Len(s) - 1), base) + DigitVal(At(s, Len(s)))
RECURSIVE LStripZ(_), RStripZ(_), Zeros(_)
LStripZ(s) == IF s # "" /\ At(s, 1) = "0" THEN LStripZ(SubSeq(s, 2, Len(s))) ELSE s
RStripZ(s) == IF s # "" /\ At(s, Len(s)) = "0" THEN RStripZ(SubSeq(s, 1, Len(s) - 1)) ELSE s
Zeros(n) == IF n <= 0 THEN "" ELSE "0" \o Zeros(n - 1)
-----------------------------------------------------------------------------
(* Numbers as Python's int() and float() read them                           *)
No == [ok |-> FALSE]
Signed(s) == s # "" /\ At(s, 1) \in {"+", "-"}
Unsigned(s) == IF Signed(s) THEN SubSeq(s, 2, Len(s)) ELSE s
Minus(s) == s # "" /\ At(s, 1) = "-"
\* digits with single underscores between them
Digits(s) == /\ s # "" /\ At(s, 1) \in Digit /\ At(s, Len(s)) \in Digit
             /\ \A i \in 1..Len(s) : At(s, i) \in Digit \/ (At(s, i) = "_" /\ At(s, i + 1) \in Digit)
Whole(neg, digits) == LET d == LStripZ(digits) IN IF d = "" THEN "0" ELSE (IF neg THEN "-" ELSE "") \o d
PyInt(text) == LET s == Strip(text) u == Unsigned(s) IN
  IF Digits(u) THEN [ok |-> TRUE, v |-> Whole(Minus(s), Without(u, "_"))] ELSE No
\* a decimal number: k is "num", "inf" or "nan"; its value is 0.d * 10^e
Dec(neg, int, frac, exp) ==
  LET all == int \o frac
      d == LStripZ(all)
      m == RStripZ(d) IN
  [ok |-> TRUE, k |-> "num", neg |-> IF m = "" THEN FALSE ELSE neg, d |-> m,
   e |-> IF m = "" THEN 0 ELSE Len(int) - (Len(all) - Len(d)) + exp]
Special(k, neg) == [ok |-> TRUE, k |-> k, neg |-> neg, d |-> "", e |-> 0]
Exp(s) == LET n == Num(LStripZ(Without(Unsigned(s), "_")), 10) IN IF Minus(s) THEN -n ELSE n
PyFloat(text) ==
  LET s == Strip(text) u == Lower(Unsigned(s)) IN
  IF u \in {"inf", "infinity"} THEN Special("inf", Minus(s))
  ELSE IF u = "nan" THEN Special("nan", FALSE)
  ELSE LET x == First(u, 1, {"e"})
           mant == IF x = 0 THEN u ELSE SubSeq(u, 1, x - 1)
           exp == IF x = 0 THEN "0" ELSE SubSeq(u, x + 1, Len(u))
           p == First(mant, 1, {"."})
           int == IF p = 0 THEN mant ELSE SubSeq(mant, 1, p - 1)
           frac == IF p = 0 THEN "" ELSE SubSeq(mant, p + 1, Len(mant)) IN
       IF /\ Digits(Unsigned(exp))
          /\ (int = "" \/ Digits(int)) /\ (frac = "" \/ Digits(frac)) /\ ~(int = "" /\ frac = "")
       THEN Dec(Minus(s), Without(int, "_"), Without(frac, "_"), Exp(exp)) ELSE No
Canon(x) == IF x.k # "num" THEN (IF x.neg THEN "-" ELSE "") \o x.k
            ELSE (IF x.neg THEN "-" ELSE "") \o "0." \o x.d \o "e" \o ToString(x.e)
\* closeness to one part in 10^9 of numbers of up to 15 digits
Abs(n) == IF n < 0 THEN -n ELSE n
Close(a, b) ==
  IF a.k = "nan" \/ b.k = "nan" THEN FALSE
  ELSE IF a.k = "inf" \/ b.k = "inf" THEN a.k = b.k /\ a.neg = b.neg
  ELSE IF a.d = b.d /\ a.e = b.e /\ a.neg = b.neg THEN TRUE
  ELSE IF a.d = "" \/ b.d = "" \/ a.neg # b.neg \/ Abs(a.e - b.e) > 1 THEN FALSE
  ELSE LET e == IF a.e > b.e THEN a.e ELSE b.e
           As(x) == SubSeq(Zeros(e - x.e) \o x.d \o Zeros(16), 1, 15)
           hi(x) == Num(SubSeq(As(x), 1, 9), 10)
           lo(x) == Num(SubSeq(As(x), 10, 15), 10)
           dh == hi(a) - hi(b) IN
       /\ Abs(dh) < 2
       /\ Abs(dh * 1000000 + lo(a) - lo(b)) * 1000 <= (IF hi(a) > hi(b) THEN hi(a) ELSE hi(b))
-----------------------------------------------------------------------------
(* YAML: one line, without mappings, anchors, tags, comments, dates and       *)
(* sexagesimal numbers                                                        *)
V(t, v) == [ok |-> TRUE, t |-> t, v |-> v, l |-> <<>>]
Truth(b) == V("bool", IF b THEN "true" ELSE "false")
YTrue == {"yes", "Yes", "YES", "true", "True", "TRUE", "on", "On", "ON"}
YFalse == {"no", "No", "NO", "false", "False", "FALSE", "off", "Off", "OFF"}
Null == {"", "~", "null", "Null", "NULL"}
Hex == Digit \cup {"a", "b", "c", "d", "e", "f"}
Starts(s, p) == Len(s) >= Len(p) /\ SubSeq(s, 1, Len(p)) = p
Rest(s, n) == SubSeq(s, n + 1, Len(s))
Based(s, digits, base) == V("int", Whole(Minus(s), ToString(Num(LStripZ(Without(Lower(digits), "_")), base))))
YamlInt(s) ==
  LET u == Unsigned(s) IN
  IF Starts(u, "0b") /\ Len(u) > 2 /\ AllIn(Rest(u, 2), {"0", "1", "_"}) THEN Based(s, Rest(u, 2), 2)
  ELSE IF Starts(u, "0x") /\ Len(u) > 2 /\ AllIn(Lower(Rest(u, 2)), Hex \cup {"_"}) THEN Based(s, Rest(u, 2), 16)
  ELSE IF Len(u) > 1 /\ At(u, 1) = "0" /\ AllIn(Rest(u, 1), {"0","1","2","3","4","5","6","7","_"}) THEN Based(s, Rest(u, 1), 8)
  ELSE IF u = "0" \/ (u # "" /\ At(u, 1) \in Digit \ {"0"} /\ AllIn(u, Digit \cup {"_"})) THEN V("int", Whole(Minus(s), Without(u, "_")))
  ELSE No
YamlFloat(s) ==
  LET u == Unsigned(s)
      x == First(u, 1, {"e", "E"})
      mant == IF x = 0 THEN u ELSE SubSeq(u, 1, x - 1)
      exp == IF x = 0 THEN "+0" ELSE SubSeq(u, x + 1, Len(u))
      p == First(mant, 1, {"."})
      int == IF p = 0 THEN "" ELSE SubSeq(mant, 1, p - 1)
      frac == IF p = 0 THEN "" ELSE SubSeq(mant, p + 1, Len(mant)) IN
  IF u \in {".inf", ".Inf", ".INF"} THEN V("float", Canon(Special("inf", Minus(s))))
  ELSE IF s \in {".nan", ".NaN", ".NAN"} THEN V("float", "nan")
  ELSE IF /\ p # 0 /\ Signed(exp) /\ Unsigned(exp) # "" /\ AllIn(Unsigned(exp), Digit)
          /\ AllIn(int, Digit \cup {"_"}) /\ AllIn(frac, Digit \cup {"_"})
          /\ IF int = "" THEN ~Signed(s) /\ frac # "" /\ At(frac, 1) # "_" ELSE At(int, 1) # "_"
       THEN V("float", Canon(Dec(Minus(s), Without(int, "_"), Without(frac, "_"), Exp(exp))))
  ELSE No
Plain(s) == IF s \in YTrue THEN Truth(TRUE) ELSE IF s \in YFalse THEN Truth(FALSE)
            ELSE IF s \in Null THEN V("null", "")
            ELSE LET i == YamlInt(s) IN IF i.ok THEN i
            ELSE LET f == YamlFloat(s) IN IF f.ok THEN f ELSE V("str", s)
\* a quoted scalar at i: its value, and where it ends
RECURSIVE Quote(_, _, _, _)
Quote(s, i, q, v) == IF i > Len(s) THEN [ok |-> FALSE, v |-> "", i |-> 0]
                     ELSE IF At(s, i) # q THEN Quote(s, i + 1, q, v \o At(s, i))
                     ELSE IF q = "'" /\ i < Len(s) /\ At(s, i + 1) = "'" THEN Quote(s, i + 2, q, v \o "'")
                     ELSE [ok |-> TRUE, v |-> v, i |-> i]
RECURSIVE Items(_, _, _)
\* items of a flow sequence from i on (after "[" or ",")
Items(s, i, out) ==
  LET j == First(s, i, {"x"} \cup {c \in {At(s, k) : k \in 1..Len(s)} : c \notin White}) IN
  IF j = 0 THEN No
  ELSE IF At(s, j) = "]" THEN (IF j = Len(s) THEN [ok |-> TRUE, t |-> "list", v |-> "", l |-> out] ELSE No)
  ELSE IF At(s, j) \in {",", "["} THEN No
  ELSE IF At(s, j) \in {"'", "\""} THEN
    LET r == Quote(s, j + 1, At(s, j), "")
        k == IF r.ok THEN First(s, r.i + 1, {"x"} \cup {c \in {At(s, n) : n \in 1..Len(s)} : c \notin White}) ELSE 0 IN
    IF k = 0 THEN No
    ELSE IF At(s, k) = "," THEN Items(s, k + 1, Append(out, V("str", r.v)))
    ELSE IF k = Len(s) /\ At(s, k) = "]" THEN [ok |-> TRUE, t |-> "list", v |-> "", l |-> Append(out, V("str", r.v))]
    ELSE No
  ELSE LET k == First(s, j, {",", "]", "["})
           item == IF k = 0 THEN No ELSE Plain(RStrip(SubSeq(s, j, k - 1))) IN
    IF k = 0 THEN No
    ELSE IF At(s, k) = "," THEN Items(s, k + 1, Append(out, item))
    ELSE IF At(s, k) = "]" /\ k = Len(s) THEN [ok |-> TRUE, t |-> "list", v |-> "", l |-> Append(out, item)]
    ELSE No
Yaml(text) ==
  LET s == Strip(text) IN
  IF s = "" THEN V("null", "")
  ELSE IF At(s, 1) = "[" THEN Items(s, 2, <<>>)
  ELSE IF At(s, 1) \in {"]", ","} THEN No
  ELSE IF At(s, 1) \in {"'", "\""} THEN LET r == Quote(s, 2, At(s, 1), "") IN
         IF r.ok /\ r.i = Len(s) THEN V("str", r.v) ELSE No
  ELSE Plain(s)
-----------------------------------------------------------------------------
(* Typed evaluation                                                           *)
Scalars == {"bool", "int", "float", "str"}
ListOf(t) == "[" \o t \o "]"
Uniform(l) == /\ \A i \in 1..Len(l) : l[i].t \in Scalars
              /\ \A i, j \in 1..Len(l) : l[i].t = l[j].t
Fits(x, type) ==
  CASE type = "any" -> IF x.t = "list" THEN Uniform(x.l) ELSE x.t \in Scalars
    [] type \in Scalars -> x.t = type
    [] OTHER -> x.t = "list" /\ \A i \in 1..Len(x.l) : ListOf(x.l[i].t) = type
Coerce(text, type) ==
  CASE type = "str" -> V("str", text)
    [] type = "int" -> LET r == PyInt(text) IN IF r.ok THEN V("int", r.v) ELSE No
    [] type = "float" -> LET r == PyFloat(text) IN IF r.ok THEN V("float", Canon(r)) ELSE No
    [] type = "bool" /\ text = "1" -> Truth(TRUE)
    [] type = "bool" /\ text = "0" -> Truth(FALSE)
    [] type = "any" /\ text = "" -> V("str", "")
    [] OTHER -> LET r == Yaml(text) IN IF r.ok /\ Fits(r, type) THEN r ELSE No
AsBool(text) == LET r == Coerce(text, "bool") IN IF r.ok THEN [ok |-> TRUE, b |-> r.v = "true"] ELSE No
-----------------------------------------------------------------------------
(* Trees of substitutions: [k |-> kind, text |-> t, a |-> operands]           *)
BoolText(b) == IF b THEN "true" ELSE "false"
T(text) == [ok |-> TRUE, v |-> text]
BoolWords == {"true", "false", "1", "0"}
Same(x, y) == LET a == Lower(x) b == Lower(y) fa == PyFloat(x) fb == PyFloat(y) IN
  IF a \in BoolWords /\ b \in BoolWords THEN (a \in {"true", "1"}) = (b \in {"true", "1"})
  ELSE IF fa.ok /\ fb.ok THEN Close(fa, fb)
  ELSE x = y
RECURSIVE Eval(_), CatAll(_, _)
\* the texts of all nodes in order, joined; the first failure fails all
CatAll(a, i) == IF i > Len(a) THEN T("") ELSE
  LET x == Eval(a[i]) IN IF ~x.ok THEN No ELSE LET r == CatAll(a, i + 1) IN IF r.ok THEN T(x.v \o r.v) ELSE No
Bool(n) == LET x == Eval(n) IN IF x.ok THEN AsBool(x.v) ELSE No
Eval(n) ==
  CASE n.k \in {"lit", "pyval"} -> T(n.text)
    [] n.k = "cat" -> CatAll(n.a, 1)
    [] n.k = "fail" -> No
    [] n.k = "not" -> LET x == Bool(n.a[1]) IN IF x.ok THEN T(BoolText(~x.b)) ELSE No
    [] n.k \in {"and", "or", "all", "any"} ->
         LET x == [i \in 1..Len(n.a) |-> Bool(n.a[i])] IN
         IF \E i \in 1..Len(n.a) : ~x[i].ok THEN No
         ELSE T(BoolText(IF n.k \in {"and", "all"} THEN \A i \in 1..Len(n.a) : x[i].b ELSE \E i \in 1..Len(n.a) : x[i].b))
    [] n.k = "if" -> LET x == Bool(n.a[1]) IN
         IF ~x.ok THEN No ELSE IF x.b THEN Eval(n.a[2]) ELSE IF Len(n.a) > 2 THEN Eval(n.a[3]) ELSE T("")
    [] n.k \in {"equals", "not-equals"} ->
         LET x == Eval(n.a[1]) y == Eval(n.a[2]) IN
         IF ~x.ok \/ ~y.ok THEN No ELSE T(BoolText(Same(x.v, y.v) = (n.k = "equals")))
\* a condition holds, does not, or is refused
Cond(n, unless) == LET x == Eval(n)
                       w == IF x.ok THEN Lower(Strip(x.v)) ELSE "" IN
  IF x.ok /\ w \in BoolWords THEN T(BoolText((w \in {"true", "1"}) # unless)) ELSE No
\* a condition on the value of a launch configuration (a value is absent as "none")
Config(op) == T(BoolText((IF op.set = "none" THEN op.want = "none" ELSE op.want # "none" /\ SubSeq(op.set, 2, Len(op.set)) = SubSeq(op.want, 2, Len(op.want))) # op.neg))
-----------------------------------------------------------------------------
(* Values given in Python: scalars, substitutions (their text is known) and   *)
(* lists of both, normalized for a type and performed                         *)
Elem(x) == x.t \in Scalars \/ x.t = "subs"
Kinds(l) == {l[i].t : i \in 1..Len(l)} \ {"subs"}
ItemType(type) == CHOOSE t \in Scalars : ListOf(t) = type
IsList(type) == type \in {ListOf(t) : t \in Scalars}
Accepted(x, type) ==
  CASE x.t \in Scalars -> type = "any" \/ x.t = type
    [] x.t = "subs" -> TRUE
    [] x.t = "none" -> FALSE
    [] OTHER -> /\ type = "any" \/ IsList(type)
                /\ \A i \in 1..Len(x.l) : Elem(x.l[i])
                /\ LET ks == Kinds(x.l) t == IF type = "any" THEN "any" ELSE ItemType(type) IN
                   \/ ks = {}
                   \/ Cardinality(ks) = 1 /\ t \in ks \cup {"any"}
                   \/ ks = {"int", "float"} /\ t \in {"any", "float"}
Widened(x, ks) == IF ks = {"int", "float"} /\ x.t = "int" THEN V("float", Canon(PyFloat(x.v))) ELSE x
Perform(x, type) ==
  IF ~Accepted(x, type) THEN No
  ELSE IF x.t \in Scalars THEN V(x.t, x.v)
  ELSE IF x.t = "subs" THEN Coerce(x.v, type)
  ELSE LET ks == Kinds(x.l)
           t == IF type = "any" THEN "any" ELSE ItemType(type)
           out == [i \in 1..Len(x.l) |-> IF x.l[i].t = "subs" THEN Coerce(x.l[i].v, t) ELSE V(Widened(x.l[i], ks).t, Widened(x.l[i], ks).v)]
           ok == \A i \in 1..Len(out) : out[i].ok
           r == [ok |-> TRUE, t |-> "list", v |-> "", l |-> out] IN
       IF ok /\ Fits(r, type) THEN r ELSE No
=============================================================================
