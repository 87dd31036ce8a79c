------------------------------ MODULE TextMC -------------------------------
(* Every text up to a length: laws of the parser and of the word splitter.   *)
EXTENDS Text, TLC
CONSTANTS MaxLen, Alphabet
VARIABLE s
Init == s = ""
Next == Len(s) < MaxLen /\ \E c \in Alphabet : s' = s \o c
Spec == Init /\ [][Next]_s
RECURSIVE Esc(_, _, _), Render(_, _, _), RenderArgs(_, _, _), Quoted(_, _), Line(_, _)
\* t with a backslash before every character of a set
Esc(t, i, cs) == IF i > Len(t) THEN ""
                 ELSE (IF At(t, i) \in cs THEN "\\" \o At(t, i) ELSE At(t, i)) \o Esc(t, i + 1, cs)
Lit(t) == IF t = "" THEN <<>> ELSE <<TextPiece(t)>>
All == [ok |-> TRUE, p |-> Lit(s)]
HasSub == \E i \in 1..Len(s) : AtSub(s, i)
HasBack == \E i \in 1..Len(s) : At(s, i) = "\\"
\* text without special characters evaluates to itself
Plain == ~HasSub /\ ~HasBack => Parse(s) = All
\* everything can be written: escaped, and as a quoted or an unquoted argument
Escaped == Parse(Esc(s, 1, {"\\", "$"})) = All
One(text) == LET r == Parse(text) IN r.ok /\ r.p = <<[k |-> "s", text |-> "v", args |-> <<Lit(s)>>]>>
SingleQuoted == One("$(v '" \o Esc(s, 1, {"\\", "'", "$"}) \o "')")
DoubleQuoted == One("$(v \"" \o Esc(s, 1, {"\\", "\"", "$"}) \o "\")")
Unquoted == (s # "" /\ \A i \in 1..Len(s) : At(s, i) # " ") => One("$(v " \o Esc(s, 1, {"\\", "'", "\"", "$", "(", ")"}) \o ")")
\* what was read, written again, reads the same.  In a quotation arguments cannot be quoted,
\* so a nested text with a space is written as what it is only outside of one.
Quoted(t, q) == q \o Esc(t, 1, {"\\", q, "$"}) \o q
Render(ps, i, d) ==
  IF i > Len(ps) THEN ""
  ELSE (IF ps[i].k = "t" THEN Esc(ps[i].text, 1, {"\\", "$", "(", ")", "'", "\""})
        ELSE "$(" \o ps[i].text \o RenderArgs(ps[i].args, 1, d) \o ")") \o Render(ps, i + 1, d)
RenderArgs(as, i, d) ==
  IF i > Len(as) THEN ""
  ELSE " " \o (IF d = 0 THEN "'" \o Render(as[i], 1, 1) \o "'" ELSE Render(as[i], 1, d)) \o RenderArgs(as, i + 1, d)
Again == LET r == Parse(s) IN r.ok => Parse(Render(r.p, 1, 0)) = r
\* words: quoting them gives them back, whatever they contain
Line(ws, i) == IF i > Len(ws) THEN ""
               ELSE "'" \o Esc(ws[i], 1, {}) \o "' " \o Line(ws, i + 1)
WordsAgain == LET r == Words(s) IN
              (r.ok /\ \A i \in 1..Len(r.w) : \A j \in 1..Len(r.w[i]) : At(r.w[i], j) \notin {"'", "\\", "$"})
                => Words(Line(r.w, 1)) = r
\* a value is never split, and stays part of the word it touches
NotSplit == LET r == Words(s) IN r.ok =>
            /\ Words(s \o " $(sp)").w = Append(r.w, " a  'b ") \/ HasBack \/ (Len(s) > 0 /\ At(s, Len(s)) = "$")
            /\ Words("$(sp) " \o s) = [ok |-> TRUE, w |-> <<" a  'b ">> \o r.w]
=============================================================================
