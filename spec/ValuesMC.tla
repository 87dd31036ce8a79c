----------------------------- MODULE ValuesMC ------------------------------
(* Laws of the specification over texts (grown character by character) and    *)
(* over trees built from them.                                                *)
EXTENDS Values
CONSTANTS MaxLen, Depth, Alphabet, Leaves
VARIABLES s, pool, depth
N(k, a) == [k |-> k, text |-> "", a |-> a]
L(t) == [k |-> "lit", text |-> t, a |-> <<>>]
Init == s = "" /\ pool = <<>> /\ depth = 0
\* either a text grows, or a tree is built in postfix order
Grow == depth = 0 /\ pool = <<>> /\ Len(s) < MaxLen /\ \E c \in Alphabet : s' = s \o c /\ UNCHANGED <<pool, depth>>
Push == s = "" /\ depth < Depth - 1 /\ \E t \in Leaves : pool' = Append(pool, L(t)) /\ depth' = depth + 1 /\ s' = s
Un == s = "" /\ pool # <<>> /\ depth < Depth /\ \E k \in {"not", "any", "all"} :
        pool' = Append(SubSeq(pool, 1, Len(pool) - 1), N(k, <<pool[Len(pool)]>>)) /\ depth' = depth + 1 /\ s' = s
Bin == s = "" /\ Len(pool) > 1 /\ depth < Depth /\ \E k \in {"and", "or", "any", "all", "equals", "not-equals", "if", "cat"} :
        pool' = Append(SubSeq(pool, 1, Len(pool) - 2), N(k, <<pool[Len(pool) - 1], pool[Len(pool)]>>)) /\ depth' = depth + 1 /\ s' = s
Next == Grow \/ Push \/ Un \/ Bin
Spec == Init /\ [][Next]_<<s, pool, depth>>
Eq(m, n) == LET x == Eval(m) y == Eval(n) IN x.ok = y.ok /\ (x.ok => x.v = y.v)
Not(n) == N("not", <<n>>)
Two == Len(pool) > 1
A == pool[Len(pool) - 1]
B == pool[Len(pool)]
DeMorgan == Two => /\ Eq(Not(N("and", <<A, B>>)), N("or", <<Not(A), Not(B)>>))
                   /\ Eq(Not(N("or", <<A, B>>)), N("and", <<Not(A), Not(B)>>))
Complement == Two => Eq(Not(N("equals", <<A, B>>)), N("not-equals", <<A, B>>))
Symmetric == Two => Eq(N("equals", <<A, B>>), N("equals", <<B, A>>))
Folds == Two => /\ Eq(N("any", <<A, B>>), N("or", <<A, B>>)) /\ Eq(N("all", <<A, B>>), N("and", <<A, B>>))
IfElse == Two => LET x == Bool(A) IN
  x.ok => Eq(N("if", <<A, B, L("z")>>), IF x.b THEN B ELSE L("z"))
\* typed evaluation
Types == {"any", "bool", "int", "float", "str", "[bool]", "[int]", "[float]", "[str]"}
TypeRight == \A t \in Types : LET r == Coerce(s, t) IN r.ok => Fits(r, t)
\* a text read as an integer is also a float of the same value
IntIsFloat == LET r == Coerce(s, "int") IN r.ok => LET f == PyFloat(s) IN f.ok /\ Canon(f) = Canon(PyFloat(r.v))
\* a list type is accepted for the whole exactly if the same list without a type is that list
AnyList == \A t \in Scalars : LET r == Coerce(s, ListOf(t)) u == Coerce(s, "any") IN
             r.ok <=> u.ok /\ u.t = "list" /\ Fits(u, ListOf(t))
EqualSelf == Same(s, s) \/ (PyFloat(s).ok /\ PyFloat(s).k = "nan")
=============================================================================
