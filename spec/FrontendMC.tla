---------------------------- MODULE FrontendMC -----------------------------
(* Laws of Frontend for every small document.                                *)
EXTENDS Frontend
CONSTANTS MaxKids, MaxAttrs, Tags
VARIABLE doc
\* values that are right in XML, and the same in YAML
Xml(kind) == CASE kind \in {"subst", "plain", "cmd"} -> "$(var a)"
               [] kind = "shutdown" -> "shutdown" [] kind \in {"bool", "boolsubst"} -> "true"
               [] kind = "int" -> "7" [] OTHER -> "0.5"
YamlType(kind) == CASE kind \in {"bool", "boolsubst"} -> "b" [] kind = "int" -> "i"
                    [] kind \in {"seconds", "floatsubst"} -> "f" [] OTHER -> "s"
KindOf(tag, n) == (Schema[tag].attrs @@ Conditions)[n].kind
RECURSIVE SeqOf(_)
SeqOf(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE x \in S : TRUE IN <<x>> \o SeqOf(S \ {x})
Make(tag, names, syn) ==
  [tag |-> tag, attrs |-> SeqOf({[n |-> n, t |-> IF syn = "xml" THEN "s" ELSE YamlType(KindOf(tag, n)),
                                  v |-> Xml(KindOf(tag, n))] : n \in names}),
   subs |-> <<>>, kids |-> <<>>, haskids |-> Schema[tag].container, form |-> "map"]
Required(tag) == {n \in DOMAIN Schema[tag].attrs : Schema[tag].attrs[n].req}
\* Elements: required attributes with up to MaxAttrs others; or with one attribute too few
Choices(tag) == {Required(tag) \cup S : S \in {S \in SUBSET ((DOMAIN Schema[tag].attrs \cup {"if", "unless"}) \ Required(tag)) : Cardinality(S) <= MaxAttrs}}
                \cup {Required(tag) \ {n} : n \in Required(tag)}
Doc(n) == [root |-> "launch", kids |-> <<n>>]
\* (a document is made of [tag, names, kids]; both syntaxes are derived from it)
RECURSIVE Build(_, _)
Build(d, syn) == [Make(d.tag, d.names, syn) EXCEPT !.kids = [i \in DOMAIN d.kids |-> Build(d.kids[i], syn)]]
Init == \E t \in Tags : \E ns \in Choices(t) : doc = [tag |-> t, names |-> ns, kids |-> <<>>]
Next == /\ Schema[doc.tag].container /\ Len(doc.kids) < MaxKids
        /\ \E t \in Tags : \E ns \in Choices(t) :
             doc' = [doc EXCEPT !.kids = Append(@, [tag |-> t, names |-> ns, kids |-> <<>>])]
Spec == Init /\ [][Next]_doc
V(n, syn) == Valid(Doc(n), syn)
X == Build(doc, "xml")
Y == Build(doc, "yaml")
\* the two syntaxes accept the same documents
Same == V(X, "xml") <=> V(Y, "yaml")
\* a document is accepted exactly if each of its elements is
Local == V(X, "xml") <=> ElementOk([X EXCEPT !.kids = <<>>], "xml") /\ \A i \in DOMAIN X.kids : V(X.kids[i], "xml")
\* nothing unknown is ignored: attributes, elements, children
Bogus == [n |-> "bogus", t |-> "s", v |-> "x"]
Ill(n) == [tag |-> n, attrs |-> <<>>, subs |-> <<>>, kids |-> <<>>, haskids |-> FALSE, form |-> "map"]
Spoil(n) == {[n EXCEPT !.attrs = Append(@, Bogus)], [n EXCEPT !.tag = "bogus"], [n EXCEPT !.subs = Append(@, Ill("bogus"))],
             [n EXCEPT !.kids = Append(@, Ill("bogus"))]}
             \cup {[n EXCEPT !.attrs = SubSeq(@, 1, i - 1) \o SubSeq(@, i + 1, Len(@))] : i \in {j \in DOMAIN n.attrs : n.attrs[j].n \in DOMAIN Schema[n.tag].attrs /\ Schema[n.tag].attrs[n.attrs[j].n].req}}
AllSpoiled(n) == Spoil(n) \cup UNION {{[n EXCEPT !.kids[i] = m] : m \in Spoil(n.kids[i])} : i \in DOMAIN n.kids}
NoneIgnored == \A n \in AllSpoiled(X) : ~V(n, "xml")
NoneIgnoredYaml == \A n \in AllSpoiled(Y) : ~V(n, "yaml")
\* what is optional can be left out
Fewer == V(X, "xml") => \A i \in DOMAIN X.attrs :
           X.attrs[i].n \notin DOMAIN Schema[X.tag].attrs \/ ~Schema[X.tag].attrs[X.attrs[i].n].req
             => V([X EXCEPT !.attrs = SubSeq(@, 1, i - 1) \o SubSeq(@, i + 1, Len(@))], "xml")
\* the order of actions does not matter to whether they are accepted; what was read follows it
Reverse(s) == [i \in DOMAIN s |-> s[Len(s) + 1 - i]]
Order == /\ V(X, "xml") <=> V([X EXCEPT !.kids = Reverse(@)], "xml")
         /\ LET T == Told(<<X>>, 1) IN T[1] = doc.tag /\ (\A i \in DOMAIN X.kids : \E j \in DOMAIN T : T[j] = X.kids[i].tag)
=============================================================================
