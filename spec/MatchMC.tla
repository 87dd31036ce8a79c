------------------------------ MODULE MatchMC ------------------------------
(* Every text up to a length, split everywhere: laws of the assertions.      *)
EXTENDS Match, TLC
CONSTANTS MaxLen, Alphabet
VARIABLES s, x
Init == s = "" /\ x = ""
Next == \/ Len(s) < MaxLen /\ x = "" /\ \E c \in Alphabet : s' = s \o c /\ x' = x
        \/ Len(x) < 3 /\ Len(x) < MaxLen /\ \E c \in Alphabet : x' = x \o c /\ s' = s
Spec == Init /\ [][Next]_<<s, x>>
Str(t) == [t |-> "str", s |-> t]
Lit(t) == [t |-> "re", items |-> [i \in 1..Len(t) |-> [cs |-> At(t, i), neg |-> FALSE, rep |-> "1"]]]
AnyLine == [t |-> "re", items |-> <<[cs |-> "\n", neg |-> TRUE, rep |-> "*"]>>]
Occurs == \E i \in 1..(Len(s) + 1) : \E j \in 0..Len(s) : i + j <= Len(s) + 1 /\ Sub(s, i, j) = x
Found == (Text(Str(x), s, 1, FALSE) # None) <=> Occurs
\* a pattern without repetition is a text; its first occurrence is found
SamePattern == Text(Lit(x), s, 1, FALSE) = Text(Str(x), s, 1, FALSE)
\* several in order: as if each was the only one in what follows
InOrder == \A k \in 0..Len(x) :
   LET a == SubSeq(x, 1, k)  b == SubSeq(x, k + 1, Len(x))
       r == Text([t |-> "list", l |-> <<Str(a), Str(b)>>], s, 1, FALSE)
       f == Find(s, a, 1) IN
   (r # None) <=> (f # 0 /\ Has(SubSeq(s, f + Len(a), Len(s)), b))
StrictIsNotWeaker == \A e \in {Str(x), Lit(x), [t |-> "list", l |-> <<Str(x), AnyLine>>]} :
   Text(e, s, 1, TRUE) # None => Text(e, s, 1, FALSE) # None
\* how the output was split into chunks does not matter
Chunk(t) == [p |-> 1, fd |-> 1, t |-> t]
NoChunks == \A k \in 0..Len(s) :
   LET cs == <<Chunk(SubSeq(s, 1, k)), Chunk(SubSeq(s, k + 1, Len(s)))>> IN
   /\ Stream(cs, 1, 1, {1}) = s
   /\ SeqRun(Pieces(cs, 1, 1, <<>>), <<x>>, 1, <<1, 1>>) = <<Has(s, x)>>
   /\ x # "" => (Has(s, x) <=> (Completes(cs, 1, x) \/ Completes(cs, 2, x)))
LinesAgain == /\ Join(Lines(s, 1, TRUE, ""), 1, "") = s
              /\ \A i \in DOMAIN Lines(s, 1, FALSE, "") : ~Has(Lines(s, 1, FALSE, "")[i], "\n")
FilterNothing == Filter(s, [on |-> TRUE, prefixes |-> <<>>, patterns |-> <<>>]) = s
Stripped == Strip(Strip(s, 1), 1) = Strip(s, 1) \/ Has(s, "~")
=============================================================================
