------------------------------- MODULE Text --------------------------------
(* What a text of a launch file means: literal pieces and substitutions with *)
(* arguments (C21), and the words of a command line given as text.           *)
(*                                                                           *)
(* A parser over characters: Parse(text) is refused, or gives the pieces in  *)
(* order, neighbouring literal characters being one piece.  Words(pieces)    *)
(* gives the words a shell would see when no substitution value is split.    *)
EXTENDS Naturals, Sequences, FiniteSets
Letter == {"a","b","c","d","e","f","g","h","i","j","k","l","m","n","o","p","q","r","s","t","u","v","w","x","y","z",
           "A","B","C","D","E","F","G","H","I","J","K","L","M","N","O","P","Q","R","S","T","U","V","W","X","Y","Z"}
Digit == {"0","1","2","3","4","5","6","7","8","9"}
NameChar == Letter \cup Digit \cup {"_", "-"}
At(s, i) == SubSeq(s, i, i)
\* (the substitutions the harness registers; any other name is refused)
Known == {"v", "w-1", "sp", "e", "Bx_2"}
TextPiece(t) == [k |-> "t", text |-> t, args |-> <<>>]
AddText(ps, t) == IF t = "" THEN ps
                  ELSE IF ps # <<>> /\ ps[Len(ps)].k = "t"
                  THEN SubSeq(ps, 1, Len(ps) - 1) \o <<TextPiece(ps[Len(ps)].text \o t)>>
                  ELSE Append(ps, TextPiece(t))
Bad == [ok |-> FALSE, p |-> <<>>, i |-> 0]
Good(p, i) == [ok |-> TRUE, p |-> p, i |-> i]
AtSub(s, i) == i < Len(s) /\ At(s, i) = "$" /\ At(s, i + 1) = "("
RECURSIVE NameEnd(_, _)
NameEnd(s, i) == IF i <= Len(s) /\ At(s, i) \in NameChar THEN NameEnd(s, i + 1) ELSE i
\* Frags: literal text and substitutions up to the end (q = "") or the closing quote q.
\* Sub: a substitution, at its "$(".  Args: its arguments, at the first one.
\* Value: one argument.  In quotes q, arguments cannot be quoted again.
RECURSIVE Frags(_, _, _, _), Sub(_, _, _), Args(_, _, _, _), Value(_, _, _), Parts(_, _, _, _, _)
Frags(s, i, q, ps) ==
  IF i > Len(s) THEN IF q = "" THEN Good(ps, i) ELSE Bad
  ELSE LET c == At(s, i) IN
    IF q # "" /\ c = q THEN Good(ps, i)
    ELSE IF c = "\\" /\ i < Len(s) THEN Frags(s, i + 2, q, AddText(ps, At(s, i + 1)))
    ELSE IF AtSub(s, i) THEN LET r == Sub(s, i, q) IN
      IF r.ok THEN Frags(s, r.i, q, ps \o r.p) ELSE Bad
    ELSE Frags(s, i + 1, q, AddText(ps, c))
Sub(s, i, q) ==
  LET j == NameEnd(s, i + 2)
      name == SubSeq(s, i + 2, j - 1) IN
  IF j = i + 2 \/ At(s, i + 2) \notin Letter \/ j > Len(s) THEN Bad
  ELSE IF name \notin Known THEN Bad
  ELSE IF At(s, j) = ")" THEN Good(<<[k |-> "s", text |-> name, args |-> <<>>]>>, j + 1)
  ELSE IF At(s, j) # " " THEN Bad
  ELSE LET r == Args(s, j + 1, q, <<>>) IN
       IF r.ok THEN Good(<<[k |-> "s", text |-> name, args |-> r.p]>>, r.i + 1) ELSE Bad
Args(s, i, q, as) ==
  LET r == Value(s, i, q) IN
  IF ~r.ok \/ r.i > Len(s) THEN Bad
  ELSE IF At(s, r.i) = " " THEN Args(s, r.i + 1, q, Append(as, r.p))
  ELSE IF At(s, r.i) = ")" THEN Good(Append(as, r.p), r.i)
  ELSE Bad
Value(s, i, q) ==
  IF i > Len(s) THEN Bad
  ELSE IF q = "" /\ At(s, i) \in {"'", "\""} THEN
    LET r == Frags(s, i + 1, At(s, i), <<>>) IN IF r.ok THEN Good(r.p, r.i + 1) ELSE Bad
  ELSE Parts(s, i, q, <<>>, 0)
\* (a space cannot be escaped in an argument: the backslash stays and the argument ends)
Parts(s, i, q, ps, n) ==
  LET done == IF n > 0 THEN Good(ps, i) ELSE Bad IN
  IF i > Len(s) THEN Bad
  ELSE LET c == At(s, i) IN
    IF c \in {" ", ")"} THEN done
    ELSE IF c = "\\" THEN
      IF i = Len(s) \/ At(s, i + 1) = " " THEN Parts(s, i + 1, q, AddText(ps, c), n + 1)
      ELSE Parts(s, i + 2, q, AddText(ps, At(s, i + 1)), n + 1)
    ELSE IF AtSub(s, i) THEN LET r == Sub(s, i, q) IN
      IF r.ok THEN Parts(s, r.i, q, ps \o r.p, n + 1) ELSE Bad
    ELSE IF c = "(" \/ (q = "" /\ c \in {"'", "\""}) \/ (q # "" /\ c = q) THEN Bad
    ELSE Parts(s, i + 1, q, AddText(ps, c), n + 1)
Parse(s) == LET r == Frags(s, 1, "", <<>>) IN [ok |-> r.ok, p |-> r.p]
-----------------------------------------------------------------------------
(* Values: what the registered substitutions evaluate to *)
RECURSIVE Eval(_, _), Join(_, _, _)
Eval(ps, i) == IF i > Len(ps) THEN ""
               ELSE (IF ps[i].k = "t" THEN ps[i].text
                     ELSE IF ps[i].text = "e" THEN ""
                     ELSE IF ps[i].text = "sp" THEN " a  'b "
                     ELSE ps[i].text \o "<" \o Join(ps[i].args, 1, "") \o ">")
                    \o Eval(ps, i + 1)
Join(as, i, sep) == IF i > Len(as) THEN "" ELSE sep \o Eval(as[i], 1) \o Join(as, i + 1, "|")
-----------------------------------------------------------------------------
(* Words of a command line.  Each literal piece is read as a shell would;     *)
(* a quotation cannot contain a substitution (such text is refused).          *)
Space == {" ", "\t", "\n", "\r"}
NoWords == [ok |-> FALSE, w |-> <<>>]
\* m: between words "_", in a word "w", in quotes, after a backslash in the word or in quotes
RECURSIVE Shell(_, _, _, _, _), Pieces(_, _, _, _, _)
Shell(t, i, m, cur, out) ==
  IF i > Len(t) THEN [ok |-> m \in {"_", "w"}, m |-> m, cur |-> cur, out |-> out]
  ELSE LET c == At(t, i) IN
    CASE m \in {"_", "w"} /\ c \in Space -> Shell(t, i + 1, "_", "", IF m = "w" THEN Append(out, cur) ELSE out)
      [] m \in {"_", "w"} /\ c = "'" -> Shell(t, i + 1, "'", cur, out)
      [] m \in {"_", "w"} /\ c = "\"" -> Shell(t, i + 1, "\"", cur, out)
      [] m \in {"_", "w"} /\ c = "\\" -> Shell(t, i + 1, "w\\", cur, out)
      [] m \in {"_", "w"} -> Shell(t, i + 1, "w", cur \o c, out)
      [] m = "'" -> IF c = "'" THEN Shell(t, i + 1, "w", cur, out) ELSE Shell(t, i + 1, m, cur \o c, out)
      [] m = "\"" -> IF c = "\"" THEN Shell(t, i + 1, "w", cur, out)
                     ELSE IF c = "\\" THEN Shell(t, i + 1, "\"\\", cur, out)
                     ELSE Shell(t, i + 1, m, cur \o c, out)
      [] m = "w\\" -> Shell(t, i + 1, "w", cur \o c, out)
      [] m = "\"\\" -> Shell(t, i + 1, "\"", cur \o (IF c \in {"\"", "\\"} THEN c ELSE "\\" \o c), out)
Pieces(ps, i, m, cur, out) ==
  IF i > Len(ps) THEN [ok |-> TRUE, w |-> IF m = "w" THEN Append(out, cur) ELSE out]
  ELSE IF ps[i].k = "s" THEN Pieces(ps, i + 1, "w", cur \o Eval(<<ps[i]>>, 1), out)
  ELSE LET r == Shell(ps[i].text, 1, m, cur, out) IN
       IF r.ok THEN Pieces(ps, i + 1, r.m, r.cur, r.out) ELSE NoWords
Words(s) == LET r == Parse(s) IN IF r.ok THEN Pieces(r.p, 1, "_", "", <<>>) ELSE NoWords
=============================================================================
