------------------------------- MODULE Parse -------------------------------
(***************************************************************************)
(* What parsing makes of an XML document.  The parser is a state machine   *)
(* with the phases                                                         *)
(*   build    one XML node per step: kept or dropped; attributes, matching *)
(*            CSS rules and the style attribute are applied one over the   *)
(*            other; references are put aside                              *)
(*   drain    style elements go                                            *)
(*   resolve  one reference per step, in order                             *)
(*   space    whitespace of one text unit per step                         *)
(*   sweep    empty texts go                                               *)
(*   done                                                                  *)
(* State: [ph, pos, doc, map, links, units]; map takes XML nodes to nodes  *)
(* of the document (0: dropped).                                           *)
(* A case c: [xml, css, lex] - the XML tree, the style sheets by their     *)
(* text, and the readings of values (key "=" followed by the value).       *)
(***************************************************************************)
EXTENDS Dom, Types, Css, Text, Json

\* white space by Unicode (for trimming), read from a file: it is not ASCII
White == {JsonDeserialize("white.json")[i] : i \in 1..Len(JsonDeserialize("white.json"))}

RECURSIVE TrimLeft(_)
TrimLeft(s) == IF s # "" /\ Ch(s, 1) \in White THEN TrimLeft(DropFirst(s)) ELSE s
RECURSIVE TrimRight(_)
TrimRight(s) == IF s # "" /\ LastCh(s) \in White THEN TrimRight(DropLast(s)) ELSE s
Trim(s) == TrimRight(TrimLeft(s))
Blank(s) == \A i \in 1..Len(s) : Ch(s, i) \in White

KnownSpaces == {"", "svg", "xlink", "xml"}
KeepBlank   == {"text", "tspan", "tref"}

Start == [ph |-> "build", pos |-> 1, doc |-> EmptyDoc, map |-> <<>>, links |-> <<>>, units |-> <<>>]

------------------------------------------------------------------------------
(* Attributes of a new element m: acc = [doc, links] *)

DropPending(links, m, n) == SelectSeq(links, LAMBDA l : ~(l.m = m /\ l.n = n))

\* one more value for attribute n of element m, stronger than everything before
ApplyValue(c, acc, m, n, raw) ==
    LET v == IF n = "unicode" THEN raw ELSE Trim(raw)
        t == Typed(acc.doc.nd[m].tag, n, v, c.lex["=" \o v])
    IN  CASE t.r = "value" -> [doc   |-> PutPlain(acc.doc, m, Plain(n, t.k, t.t)),
                               links |-> DropPending(acc.links, m, n)]
          [] t.r = "link"  -> [acc EXCEPT !.links = Append(@, [m |-> m, n |-> n, iri |-> t.iri, fb |-> t.fb])]
          [] t.r = "unset" -> [acc EXCEPT !.doc = Unset(@, m, n)]
          [] OTHER         -> acc

ApplyXml(c, acc, m, a) ==
    IF a.ns \notin KnownSpaces \/ a.n \notin AttributeSet THEN acc
    ELSE IF a.n = "id" THEN [acc EXCEPT !.doc.nd[m].id = a.v]
    ELSE IF a.n \in {"style", "class"} THEN acc
    ELSE ApplyValue(c, acc, m, a.n, a.v)

Styleable == Presentation \cup {"transform"}

ApplyStyle(c, acc, m, de) ==
    IF de.n \in Styleable THEN ApplyValue(c, acc, m, de.n, de.v) ELSE acc

\* in a style sheet `marker` stands for three properties
ApplyRule(c, acc, m, de) ==
    IF de.n = "marker"
    THEN FoldLeft(LAMBDA a, n : ApplyValue(c, a, m, n, de.v), acc, <<"marker-start", "marker-mid", "marker-end">>)
    ELSE ApplyStyle(c, acc, m, de)

ApplyAll(c, acc, m, e, rules) ==
    LET x  == c.xml[e]
        a1 == FoldLeft(LAMBDA a, y : ApplyXml(c, a, m, y), acc, x.at)
        rs == SelectSeq(rules, LAMBDA r : Matches(c.xml, e, r.sel))
        a2 == FoldLeft(LAMBDA a, y : ApplyRule(c, a, m, y), a1, FlattenSeq([i \in 1..Len(rs) |-> rs[i].decls]))
    IN  FoldLeft(LAMBDA a, y : ApplyStyle(c, a, m, y), a2, x.de)

------------------------------------------------------------------------------
(* Building *)

KeptElement(x) == x.ns = "svg" /\ x.n \in ElementSet
KeptText(x, ptag) == ~Blank(x.tx) \/ ptag \in KeepBlank

StepBuild(c, s, rules) ==
    LET e  == s.pos
        x  == c.xml[e]
        p  == IF x.par = 0 THEN 1 ELSE s.map[x.par]
        m  == Len(s.doc.nd) + 1
        skip == [s EXCEPT !.pos = @ + 1, !.map = Append(@, 0)]
        put(acc) == [s EXCEPT !.pos = @ + 1, !.map = Append(@, m),
                              !.doc = PlaceChild(acc.doc, p, m, FALSE), !.links = acc.links]
    IN  IF p = 0 THEN skip
        ELSE CASE x.k = "element" /\ KeptElement(x) ->
                    put(ApplyAll(c, [doc |-> AddNode(s.doc, NewNode("element", x.n, "")), links |-> s.links], m, e, rules))
               [] x.k = "text" /\ KeptText(x, s.doc.nd[p].tag) ->
                    put([doc |-> AddNode(s.doc, NewNode("text", "@", x.tx)), links |-> s.links])
               [] x.k = "comment" ->
                    put([doc |-> AddNode(s.doc, NewNode("comment", "@", x.tx)), links |-> s.links])
               [] OTHER -> skip

------------------------------------------------------------------------------
(* References *)

WithId(d, iri) ==
    LET s == SelectSeq(Preorder(d, 1), LAMBDA n : d.nd[n].id = iri) IN IF s = <<>> THEN 0 ELSE Head(s)

Unresolved(l) ==
    CASE l.fb = "none"         -> Plain(l.n, "none", "")
      [] l.fb = "currentColor" -> Plain(l.n, "current", "")
      [] l.fb # ""             -> Plain(l.n, "color", l.fb)
      [] l.n = "fill"          -> Plain(l.n, "none", "")
      [] l.n = "href"          -> Plain(l.n, "string", "#" \o l.iri)
      [] OTHER                 -> Plain(l.n, "string", "url(#" \o l.iri \o ")")

Resolve(d, l) ==
    LET to == WithId(d, l.iri) IN
    IF ~d.nd[l.m].lv THEN d
    ELSE IF to = 0 THEN PutPlain(d, l.m, Unresolved(l))
    ELSE DoSet(d, l.m, [n |-> l.n, k |-> "link", to |-> to, fb |-> l.fb]).d

------------------------------------------------------------------------------
(* Text *)

RECURSIVE UnitsBelow(_, _)
UnitsBelow(d, n) ==
    FlattenSeq(TLCEval([i \in 1..Len(d.nd[n].kids) |->
        LET k == d.nd[n].kids[i] IN
        IF d.nd[k].k # "element" THEN <<>>
        ELSE IF d.nd[k].tag = "text" \/ \E j \in 1..Len(d.nd[k].kids) : d.nd[d.nd[k].kids[j]].k = "text"
        THEN <<k>>
        ELSE UnitsBelow(d, k)]))

\* xml:space of the nearest element that has it
SpaceAt(d, n) ==
    LET up == SelectSeq(AncestorsOf(d, n), LAMBDA m : HasAttr(d, m, "space")) IN
    IF up = <<>> THEN "default"
    ELSE IF d.nd[Head(up)].at[AttrIndex(d, Head(up), "space")].t = "preserve" THEN "preserve" ELSE "default"

TextsBelow(d, u) == SelectSeq(Preorder(d, u), LAMBDA n : d.nd[n].k = "text")

UnitOf(d, u) ==
    LET ts == TextsBelow(d, u) IN
    [i \in 1..Len(ts) |-> [tx |-> d.nd[ts[i]].tx, sp |-> SpaceAt(d, ts[i]),
                           dp |-> Len(AncestorsOf(d, ts[i])) - Len(AncestorsOf(d, u))]]

Spaced(d, u) ==
    LET ts == TextsBelow(d, u)
        p  == Process(UnitOf(d, u))
    IN  [d EXCEPT !.nd = TLCEval([n \in 1..Len(d.nd) |->
            IF n \in Range_(ts) THEN [d.nd[n] EXCEPT !.tx = p[IndexOf(ts, n)]] ELSE d.nd[n]])]

Swept(d) ==
    FoldLeft(LAMBDA a, n : Removed(a, n), d,
             SelectSeq(Preorder(d, 1), LAMBDA n : d.nd[n].k = "text" /\ d.nd[n].tx = ""))

------------------------------------------------------------------------------
(* The machine *)

\* "" while parsing, then "ok" or "nosvg"
Result(s) == IF s.ph = "done" THEN "ok" ELSE IF s.ph = "nosvg" THEN "nosvg" ELSE ""

StepParse(c, s, rules) ==
    CASE s.ph = "build" ->
            IF s.pos <= Len(c.xml) THEN StepBuild(c, s, rules)
            ELSE IF SvgElement(s.doc) = 0 THEN [s EXCEPT !.ph = "nosvg"]
            ELSE [s EXCEPT !.ph = "resolve", !.pos = 1, !.doc = DoDrain(@, 1, "tag", "style").d]
      [] s.ph = "resolve" ->
            IF s.pos <= Len(s.links) THEN [s EXCEPT !.pos = @ + 1, !.doc = Resolve(@, s.links[s.pos])]
            ELSE [s EXCEPT !.ph = "space", !.pos = 1, !.units = UnitsBelow(s.doc, 1)]
      [] s.ph = "space" ->
            IF s.pos <= Len(s.units) THEN [s EXCEPT !.pos = @ + 1, !.doc = Spaced(@, s.units[s.pos])]
            ELSE [s EXCEPT !.ph = "done", !.doc = Swept(@)]

RECURSIVE RunFrom(_, _, _)
RunFrom(c, s, rules) == IF Result(s) # "" THEN s ELSE RunFrom(c, StepParse(c, s, rules), rules)
ParseAll(c) == RunFrom(c, Start, Rules(c.xml, c.css))

------------------------------------------------------------------------------
(* The document as an observer numbers it: living nodes in document order *)

Renumbered(d) ==
    LET p   == Preorder(d, 1)
        num(n) == IF n = 0 THEN 0 ELSE IndexOf(p, n)
    IN  [nd |-> TLCEval([i \in 1..Len(p) |->
            LET x == d.nd[p[i]] IN
            [x EXCEPT !.par  = num(@),
                      !.kids = TLCEval([j \in 1..Len(x.kids) |-> num(x.kids[j])]),
                      !.at   = TLCEval([j \in 1..Len(x.at) |-> [x.at[j] EXCEPT !.to = num(@)]]),
                      !.us   = TLCEval([j \in 1..Len(x.us) |-> num(x.us[j])])]]),
         tops |-> {}]

------------------------------------------------------------------------------
(* Invariants *)

\* no reference to an element that is not there, none back to a user of the element, none dangling
LinksLegal(s) == LinkSymmetry(s.doc) /\ NoMutualLinks(s.doc) /\ DeadIsGone(s.doc)
\* a document has no style elements, no empty texts, and its texts are settled
Settled(s) ==
    s.ph = "done" =>
        /\ \A n \in Subtree(s.doc, 1) : s.doc.nd[n].tag # "style" /\ (s.doc.nd[n].k = "text" => s.doc.nd[n].tx # "")
        /\ \A i \in 1..Len(s.links) : s.doc.nd[s.links[i].m].lv =>
              LET l == s.links[i] IN
              \/ HasAttr(s.doc, l.m, l.n)
              \/ WithId(s.doc, l.iri) # 0 /\ LinkError(s.doc, l.m, WithId(s.doc, l.iri)) # ""
=============================================================================
