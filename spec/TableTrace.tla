----------------------------- MODULE TableTrace -----------------------------
(***************************************************************************)
(* The tables of the library against the tables of SVG (Names, Types).     *)
(* Each row is one question put to the library and what it answered; each  *)
(* is a behaviour asked -> answered.  The tables of the specification      *)
(* themselves are checked first: names are distinct and in order, classes  *)
(* contain only known names and nest as SVG says, and every default is     *)
(* what the parser makes of the text of that default.                      *)
(***************************************************************************)
EXTENDS Types, Json, IOUtils, TLC, SequencesExt

File == JsonDeserialize(IOEnv.TRACE_FILE)
Rows == File.rows
Lex  == File.lex

VARIABLES t, ph

------------------------------------------------------------------------------
(* The specification's tables *)

Distinct(s) == \A i, j \in 1..Len(s) : i # j => s[i] # s[j]

DefaultText(d) == CASE d.k = "none" -> "none" [] OTHER -> d.t

ASSUME NamesDistinct == Distinct(ElementNames) /\ Distinct(AttributeNames)
ASSUME ClassesKnown ==
    /\ \A c \in DOMAIN ElementClass : ElementClass[c] \subseteq ElementSet
    /\ \A c \in DOMAIN AttributeClass : AttributeClass[c] \subseteq AttributeSet
ASSUME ClassesNest ==
    /\ ElementClass.basic \subseteq ElementClass.shape
    /\ ElementClass.shape \subseteq ElementClass.graphic
    /\ ElementClass.textchild = ElementClass.text \ {"text"}
    /\ ElementClass.gradient \subseteq ElementClass.paint
    /\ ElementClass.paint \subseteq ElementClass.referenced
    /\ AttributeClass.fill \cup AttributeClass.stroke \subseteq AttributeClass.inheritable
    /\ AttributeClass.inheritable \subseteq AttributeClass.presentation
    /\ NonInheritable \subseteq Presentation
ASSUME DefaultsTyped ==
    \A n \in AttributeSet :
        LET d == DefaultOf(n) IN
        d # NoDefault =>
            /\ n \in Presentation
            /\ Typed("rect", n, DefaultText(d), Lex["=" \o DefaultText(d)]) = R("value", d.k, d.t)

------------------------------------------------------------------------------
(* What each row must answer *)

SetOf(s) == {s[i] : i \in 1..Len(s)}
Classes(table, n) == {c \in DOMAIN table : n \in table[c]}
Shown(n) == IF n = "href" THEN "xlink:href" ELSE IF n = "space" THEN "xml:space" ELSE n
QNames == "ref name back eq !other !named text"

If(b, f) == IF b THEN {} ELSE {f}

NameFacets(r, names, shown) ==
         If(r.from = "itself", "from_str")
    \cup If(r.as = r.n /\ r.dis = r.n /\ r.deb = r.n /\ r.gen = r.n, "as_str")
    \cup If(r.qn = shown, "shown")
    \cup If(r.pos \in 1..Len(names) /\ r.up, "order")
    \cup If(r.pos \in 1..Len(names) => names[r.pos] = r.n, "order")
    \cup If(r.same = 1, "distinct")
    \cup If(r.q = QNames, "qname")

KindOf(c, s) ==
    CASE c \in {"str", "string"} -> "string"
      [] c \in {"f64", "i32"} -> "number"
      [] c \in {"f64 unit", "i32 unit"} -> "length"
      [] c = "keyword" -> Keyword(s)
      [] c = "fallback" -> IF s = "none" THEN "none" ELSE IF s = "currentColor" THEN "current" ELSE "color"
      [] OTHER -> c
ValueShown(k, s) == CASE k = "none" -> "none" [] k = "inherit" -> "inherit" [] k = "current" -> "currentColor" [] OTHER -> s

\* the kind of a link by the name it is stored under, or as it was asked for
LinkKind(r) ==
    CASE r.how = "node" -> IF ~r.id THEN "func" ELSE IF r.n = "href" THEN "link" ELSE IF r.n \in {"fill", "stroke"} THEN "paint" ELSE "func"
      [] r.how = "pair" -> "paint"
      [] OTHER -> r.how
LinkShown(k, f) == IF k = "link" THEN "#t-1" ELSE "url(#t-1)" \o (IF f = "" THEN "" ELSE " " \o f)

Facets(r) ==
    CASE r.r = "element" -> NameFacets(r, ElementNames, r.n)
                            \cup If(SetOf(r.cls) = Classes(ElementClass, r.n), "classes")
      [] r.r = "attribute" -> NameFacets(r, AttributeNames, Shown(r.n))
                            \cup If(r.acc = "id has !has svg", "qname")
                            \cup If(SetOf(r.cls) = Classes(AttributeClass, r.n), "classes")
                            \cup If(SetOf(r.cla) = Classes(AttributeClass, r.n), "classes")
                            \cup If(r.def = DefaultOf(r.n), "default")
                            \cup If(r.nd = DefaultOf(r.n) /\ r.ndn = (IF DefaultOf(r.n) = NoDefault THEN "" ELSE r.n), "new_default")
      [] r.r = "other" -> If(r.cls = <<>>, "classes") \cup If(~r.svg, "qname")
      [] r.r = "probe" -> If(r.e = (IF r.n \in ElementSet THEN r.n ELSE ""), "from_str")
                          \cup If(r.a = (IF r.n \in AttributeSet THEN r.n ELSE ""), "from_str")
      [] r.r = "link" -> LET k == LinkKind(r) IN
                          If(r.k = k, "kind") \cup If(r.fb = r.f, "value") \cup If(r.ok, "attribute")
                          \cup If(r.is = k \o "+", "is")
                          \cup If(r.shown = LinkShown(k, r.f) /\ r.noted = (IF r.id THEN Shown(r.n) ELSE r.n) \o "='" \o r.shown \o "'", "shown")
      [] r.r = "value" -> LET k == KindOf(r.c, r.n) IN
                          If(r.k = k, "kind") \cup If(r.t = r.orig, "value") \cup If(r.ok, "attribute")
                          \cup If(r.is = k, "is")
                          \cup If(r.shown = ValueShown(k, r.t) /\ r.noted = "x='" \o r.shown \o "'", "shown")

------------------------------------------------------------------------------

Init == t \in 1..Len(Rows) /\ ph = "asked"
Next == /\ ph = "asked"
        /\ LET bad == Facets(Rows[t]) IN
           IF bad = {} THEN ph' = "right"
           ELSE ph' = "wrong" /\ PrintT("DIVERGE " \o ToJson([t |-> t, bad |-> bad]))
        /\ UNCHANGED t
Spec == Init /\ [][Next]_<<t, ph>>

\* nothing was left out
Complete ==
    /\ {Rows[i].n : i \in {i \in 1..Len(Rows) : Rows[i].r = "element"}} = ElementSet
    /\ {Rows[i].n : i \in {i \in 1..Len(Rows) : Rows[i].r = "attribute"}} = AttributeSet
ASSUME Complete
=============================================================================
