------------------------------ MODULE MCParse ------------------------------
(***************************************************************************)
(* Exhaustive families of small documents.  A state is a document (an XML  *)
(* tree); every document is run through the parser machine of Parse, its   *)
(* invariants are checked, and it is printed so that it can be replayed    *)
(* into the real library.                                                  *)
(***************************************************************************)
EXTENDS Parse, IOUtils
CONSTANTS Scope, N
VARIABLES xml, css

Lex == JsonDeserialize(IOEnv.LEX_FILE)

El(ns, n, par, at) == [k |-> "element", ns |-> ns, n |-> n, tx |-> "", par |-> par, at |-> at, de |-> <<>>]
Tx(tx, par) == [k |-> "text", ns |-> "", n |-> "", tx |-> tx, par |-> par, at |-> <<>>, de |-> <<>>]
Cm(tx, par) == [k |-> "comment", ns |-> "", n |-> "", tx |-> tx, par |-> par, at |-> <<>>, de |-> <<>>]
At(n, v) == [ns |-> IF n = "href" THEN "xlink" ELSE IF n = "space" THEN "xml" ELSE "", n |-> n, v |-> v]
Opt_(n, v) == IF v = "" THEN <<>> ELSE <<At(n, v)>>
Svg == El("svg", "svg", 0, <<>>)

\* where a new last node can hang: the last node and the elements above it
RECURSIVE Up(_, _)
Up(x, e) == IF e = 0 THEN {} ELSE (IF x[e].k = "element" THEN {e} ELSE {}) \cup Up(x, x[e].par)
Spots(x) == Up(x, Len(x))
\* two texts in a row would be one
LastKid(x, p) == LET s == {i \in 1..Len(x) : x[i].par = p} IN IF s = {} THEN 0 ELSE CHOOSE i \in s : \A j \in s : j <= i

------------------------------------------------------------------------------
(* P01: structure *)
ContentTags == {<<"svg", "g">>, <<"svg", "text">>, <<"svg", "tspan">>, <<"svg", "style">>, <<"svg", "unknown">>, <<"other", "g">>}
AddContent ==
    \E p \in Spots(xml) :
        \/ \E tag \in ContentTags : xml' = Append(xml, El(tag[1], tag[2], p, <<>>))
        \/ xml' = Append(xml, Cm("c", p))
        \/ LET l == LastKid(xml, p) IN
           /\ (IF l = 0 THEN TRUE ELSE xml[l].k # "text")
           /\ \E tx \in {"x", " "} : xml' = Append(xml, Tx(tx, p))

(* P07: whitespace *)
SpaceTags == {<<"text", "">>, <<"tspan", "">>, <<"tspan", "preserve">>, <<"a", "default">>}
AddSpace ==
    \E p \in Spots(xml) :
        \/ \E tag \in SpaceTags : xml' = Append(xml, El("svg", tag[1], p, Opt_("space", tag[2])))
        \/ LET l == LastKid(xml, p) IN
           /\ (IF l = 0 THEN TRUE ELSE xml[l].k # "text")
           /\ \E tx \in {" a ", " ", "\n b"} : xml' = Append(xml, Tx(tx, p))

(* P06: references *)
Ids  == {"", "a", "b"}
Refs == {<<>>} \cup {<<At("href", "#" \o i)>> : i \in {"a", "b", "z"}}
               \cup {<<At("fill", "url(#" \o i \o ")")>> : i \in {"a", "b", "z"}}
               \cup {<<At("stroke", "url(#" \o i \o ") red")>> : i \in {"a", "z"}}
               \cup {<<At("filter", "url(#" \o i \o ")")>> : i \in {"a", "b", "z"}}
AddLinks == \E p \in Spots(xml) \ (IF N > 3 THEN Spots(xml) \ {1} ELSE {}), id \in Ids, r \in Refs :
                xml' = Append(xml, El("svg", "g", p, Opt_("id", id) \o r))

(* P06 / D07: references from and to style elements, which go *)
AddStyleRefs == \E p \in Spots(xml), id \in {"", "a"}, tag \in {"g", "style"}, r \in {<<>>, <<At("fill", "url(#a)")>>, <<At("href", "#a")>>} :
                xml' = Append(xml, El("svg", tag, p, Opt_("id", id) \o r))

(* P05: selectors: all of these rules against all small trees *)
C(c, ty, subs) == [c |-> c, ty |-> ty, subs |-> subs]
Q(k, n, v) == [k |-> k, n |-> n, v |-> v]
Cls(v) == Q("word", "class", v)
Simple == << <<"g", <<>>>>, <<"*", <<Cls("c")>>>>, <<"*", <<Q("first-child", "", "")>>>>, <<"rect", <<Cls("d")>>>> >>
Pairs_ == [k \in 1..48 |->
            LET i == (k - 1) \div 12  j == ((k - 1) \div 3) % 4  c == (k - 1) % 3 IN
            << C("", Simple[i+1][1], Simple[i+1][2]), C(<<" ", ">", "+">>[c+1], Simple[j+1][1], Simple[j+1][2]) >>]
Props == <<"font-family", "font-style", "font-weight", "font-variant", "font-stretch", "clip-rule", "fill-rule", "direction",
           "visibility", "writing-mode", "overflow", "text-anchor", "text-rendering", "shape-rendering", "image-rendering",
           "color-rendering", "color-interpolation", "kerning", "dominant-baseline", "unicode-bidi", "stroke-linecap",
           "stroke-linejoin", "color-profile", "enable-background", "display", "pointer-events", "text-decoration",
           "alignment-baseline", "clip", "cursor", "font", "color-interpolation-filters">>
SelRules(from, n) == [i \in 1..n |-> [sel |-> Pairs_[from + i], decls |-> <<[n |-> Props[i], v |-> "r"]>>]]
SelSheet(k) == [tx |-> IF k = 1 THEN "S1" ELSE "S2", rules |-> IF k = 1 THEN SelRules(0, 24) ELSE SelRules(24, 24)]
AddSelect == \E p \in Spots(xml) \ {2} :
                \/ \E tag \in {"g", "rect", "unknown"}, cl \in {"", "c", "c d"} :
                      xml' = Append(xml, El("svg", tag, p, Opt_("class", cl)))
                \/ xml' = Append(xml, El("other", "g", p, Opt_("class", "c")))
                \/ xml' = Append(xml, El("svg", "g", p, <<[ns |-> "svg", n |-> "class", v |-> "c"]>>))

(* P04: the cascade for one attribute of one element *)
Vals == [fill |-> <<"", "red", "nonsense", "url(#a)", "url(#z) blue">>, transform |-> <<"", "scale(2)", "scale(1)", "wrong", "rotate(30)">>,
         opacity |-> <<"", "0.5", "7", "abc", "inherit">>]
         @@ ("marker-mid" :> <<"", "none", "inherit", "url(#a)", "wrong">>)
         @@ [filter |-> <<"", "none", "url(#r)", "url(#a)", "url(#z)">>]
Sels == << << C("", "rect", <<>>) >>, << C("", "*", <<Cls("c")>>) >>, << C("", "*", <<Q("is", "id", "r")>>) >>, << C("", "rect", <<Cls("c")>>) >> >>
DeclOf(n, v) == IF v = "" THEN <<>> ELSE <<[n |-> n, v |-> v]>>
CascadeDocs ==
    \E n \in DOMAIN Vals : \E v1, v2, v3, v4 \in 1..5 : \E s1, s2 \in 1..4 :
      \E n2 \in {n} \cup (IF n = "marker-mid" THEN {"marker"} ELSE {}) :
        /\ N > 1 \/ s1 + s2 = 3 \/ (s1 = 2 /\ s2 = 4) \/ (s1 = 3 /\ s2 = 2) \/ (s1 = 1 /\ s2 = 1)
        /\ xml' = << Svg, El("svg", "style", 1, <<>>), Tx("S", 2),
                     [El("svg", "rect", 1, <<At("id", "r"), At("class", "c")>> \o Opt_(n, Vals[n][v1])) EXCEPT !.de = DeclOf(n, Vals[n][v4])],
                     El("svg", "linearGradient", 1, <<At("id", "a")>>) >>
        /\ css' = << [tx |-> "S", rules |-> << [sel |-> Sels[s1], decls |-> DeclOf(n2, Vals[n][v2])],
                                               [sel |-> Sels[s2], decls |-> DeclOf(n, Vals[n][v3])] >>] >>

(* P03: attributes of one element, by namespace and name *)
NameVals == [id |-> {"a", "b"}, class |-> {"c"}, href |-> {"#a", "#z"}, space |-> {"preserve"}, width |-> {"7", "0.5", "wrong"}, unknown |-> {"c"}]
AddName ==
    \E ns \in {"", "svg", "xlink", "xml", "other"}, n \in DOMAIN NameVals : \E v \in NameVals[n] :
        /\ \A i \in 1..Len(xml[2].at) : ~(xml[2].at[i].ns = ns /\ xml[2].at[i].n = n)
        /\ xml' = [xml EXCEPT ![2].at = Append(@, [ns |-> ns, n |-> n, v |-> v])]

------------------------------------------------------------------------------
Init == CASE Scope = "select" -> \E k \in {1, 2} : xml = <<Svg, El("svg", "style", 1, <<>>), Tx(SelSheet(k).tx, 2)>> /\ css = <<SelSheet(k)>>
          [] Scope = "names" -> xml = <<Svg, El("svg", "rect", 1, <<>>), El("svg", "g", 1, <<At("id", "a")>>)>> /\ css = <<>>
          [] OTHER -> xml = <<Svg>> /\ css = <<>>
Base == IF Scope = "select" THEN 3 ELSE 1

Next == /\ IF Scope = "names" THEN Len(xml[2].at) < N ELSE Len(xml) < Base + N
        /\ CASE Scope = "content" -> AddContent /\ UNCHANGED css
             [] Scope = "space"   -> AddSpace /\ UNCHANGED css
             [] Scope = "links"   -> AddLinks /\ UNCHANGED css
             [] Scope = "stylerefs" -> AddStyleRefs /\ UNCHANGED css
             [] Scope = "select"  -> AddSelect /\ UNCHANGED css
             [] Scope = "names"   -> AddName /\ UNCHANGED css
             [] Scope = "cascade" -> Len(xml) = 1 /\ CascadeDocs
Spec == Init /\ [][Next]_<<xml, css>>

\* the specification's own guarantees on the parsed document
Good == LET s == ParseAll([xml |-> xml, css |-> css, lex |-> Lex]) IN
        /\ Result(s) = "ok" /\ LinksLegal(s) /\ Settled(s) /\ Forest(s.doc) /\ Acyclic(s.doc) /\ UniqueNames(s.doc)
        /\ \A i \in 1..Len(s.units) : AllDefault(UnitOf(s.doc, s.units[i])) => Stable(UnitOf(s.doc, s.units[i]))
PrintDoc == PrintT("DOC " \o ToJson([xml |-> xml, css |-> css]))
Inv == Good /\ PrintDoc
=============================================================================
