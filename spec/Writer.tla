------------------------------- MODULE Writer -------------------------------
(***************************************************************************)
(* Text forms of a document: the XML output and Debug / Display.           *)
(* The XML writer is a state machine driven by the edges of a traversal:   *)
(*   out   : text written so far                                           *)
(*   st    : "empty" | "document" | "attributes" (a start tag is open)     *)
(*   pres  : inside of a text element, no whitespace may be added          *)
(*   stack : open elements [tag, kids]                                     *)
(***************************************************************************)
EXTENDS Dom, Names, Json

Hex == JsonDeserialize("hex.json")

Chr(s, i) == SubSeq(s, i, i)

\* maps every character of s by f and joins the results
MapChars(s, f(_)) ==
    LET M[i \in 0..Len(s)] == IF i = 0 THEN "" ELSE M[i-1] \o f(Chr(s, i)) IN M[Len(s)]

HasChar(s, C) == \E i \in 1..Len(s) : Chr(s, i) \in C

RECURSIVE Times(_, _)
Times(s, n) == IF n = 0 THEN "" ELSE s \o Times(s, n - 1)

Joined(ss, sep) ==
    LET J[i \in 0..Len(ss)] ==
            IF i = 0 THEN "" ELSE IF i = 1 THEN ss[1] ELSE J[i-1] \o sep \o ss[i]
    IN  J[Len(ss)]

------------------------------------------------------------------------------
(* Values and names *)

ValueText(d, a) ==
    CASE a.k = "none"    -> "none"
      [] a.k = "inherit" -> "inherit"
      [] a.k = "current" -> "currentColor"
      [] a.k = "link"    -> "#" \o d.nd[a.to].id
      [] a.k = "func"    -> "url(#" \o d.nd[a.to].id \o ")"
      [] a.k = "paint"   -> "url(#" \o d.nd[a.to].id \o ")" \o (IF a.fb = "" THEN "" ELSE " " \o a.fb)
      [] OTHER           -> a.t

IsCustom(n) == Chr(n, 1) = "@"
BareName(n) == IF IsCustom(n) THEN SubSeq(n, 2, Len(n)) ELSE n
AttrTextName(n) ==
    IF n = "href" THEN "xlink:href" ELSE IF n = "space" THEN "xml:space" ELSE BareName(n)

------------------------------------------------------------------------------
(* Debug and Display *)

ShowAttr(d, a)  == AttrTextName(a.n) \o "='" \o ValueText(d, a) \o "'"
ShowAttrs(d, n) == Joined([i \in 1..Len(d.nd[n].at) |-> ShowAttr(d, d.nd[n].at[i])], " ")
ShowContent(d, n) ==
    (IF d.nd[n].id = "" THEN "" ELSE " id='" \o d.nd[n].id \o "'")
    \o (IF d.nd[n].at = <<>> THEN "" ELSE " " \o ShowAttrs(d, n))

Display(d, n) ==
    LET x == d.nd[n] IN
    CASE x.k = "root"    -> ""
      [] x.k = "element" -> "<" \o BareName(x.tag) \o ShowContent(d, n) \o ">"
      [] x.k = "comment" -> "<!--" \o x.tx \o "-->"
      [] x.k = "text"    -> x.tx

\* us: the users in the order the node lists them
DebugText(d, n, us) ==
    LET x == d.nd[n] IN
    CASE x.k = "root"    -> "Root()"
      [] x.k = "element" ->
            "Element(" \o BareName(x.tag) \o ShowContent(d, n)
            \o (IF us = <<>> THEN ""
                ELSE "; linked-nodes:" \o Joined([i \in 1..Len(us) |-> " '" \o d.nd[us[i]].id \o "'"], ""))
            \o ")"
      [] x.k = "comment" -> "Comment(" \o x.tx \o ")"
      [] x.k = "text"    -> "Text(" \o x.tx \o ")"

ShowAnswer(d, n, us) ==
    LET x == d.nd[n] IN
    [dis  |-> Display(d, n),
     deb  |-> DebugText(d, n, us),
     at   |-> [i \in 1..Len(x.at) |-> ShowAttr(d, x.at[i])],
     av   |-> [i \in 1..Len(x.at) |-> ValueText(d, x.at[i])],
     all  |-> ShowAttrs(d, n),
     alld |-> "Attributes(" \o ShowAttrs(d, n) \o ")"]

------------------------------------------------------------------------------
(* Escaping *)

EscValue(s, q) ==
    MapChars(s, LAMBDA c : CASE c = "&"  -> "&amp;"
                             [] c = "<"  -> "&lt;"
                             [] c = "\t" -> "&#9;"
                             [] c = "\n" -> "&#10;"
                             [] c = "\r" -> "&#13;"
                             [] c = "\"" /\ q = "\"" -> "&quot;"
                             [] c = "'"  /\ q = "'"  -> "&apos;"
                             [] OTHER -> c)

\* `&` is not escaped in texts: see known finding W04-1
EscText(s) ==
    LET M[i \in 0..Len(s)] ==
            IF i = 0 THEN ""
            ELSE LET c == Chr(s, i) IN
                 M[i-1] \o (CASE c = "<"  -> "&lt;"
                              [] c = "\r" -> "&#13;"
                              [] c = ">" /\ i > 1 /\ Chr(s, i - 1) = "]" -> "&gt;"
                              [] OTHER -> c)
    IN  M[Len(s)]

\* a character beyond the first 65536 counts as two in TLC's strings
CodePoints(s) ==
    LET two(i) == i >= 1 /\ i < Len(s) /\ SubSeq(s, i, i + 1) \in DOMAIN Hex
        M[i \in 0..Len(s)] ==
            IF i = 0 THEN ""
            ELSE IF two(i) THEN M[i-1]
            ELSE M[i-1] \o "&#x" \o Hex[IF two(i - 1) THEN SubSeq(s, i - 1, i) ELSE Chr(s, i)] \o ";"
    IN  M[Len(s)]

------------------------------------------------------------------------------
(* The XML writer.  Options: a string of three characters, quote d|s, indent and attribute indent *)

IndentUnit(c) ==
    CASE c = "t" -> "\t" [] c = "n" -> "" [] c = "0" -> "" [] c = "1" -> " " [] c = "2" -> "  "
      [] c = "3" -> "   " [] c = "4" -> "    "

\* no options: Display, which uses the default ones
Opt(os) == LET s == IF os = "" THEN "d4n" ELSE os IN
           [q  |-> IF Chr(s, 1) = "s" THEN "'" ELSE "\"",
            on |-> Chr(s, 2) # "n", ind |-> IndentUnit(Chr(s, 2)),
            aon |-> Chr(s, 3) # "n", aind |-> IndentUnit(Chr(s, 3))]

Emit(w, s) == [w EXCEPT !.out = @ \o s]

NewLine(w, o)  == IF o.on /\ ~w.pres THEN Emit(w, "\n") ELSE w
Indent(w, o)   == IF o.on /\ ~w.pres THEN Emit(w, Times(o.ind, Len(w.stack))) ELSE w

\* before any child: close the start tag, go to a new line
OpenParent(w) ==
    IF w.st = "attributes"
    THEN [Emit(w, ">") EXCEPT !.st = "document", !.stack[Len(w.stack)].kids = TRUE]
    ELSE w
Place(w, o) ==
    LET w1 == OpenParent(w)
        w2 == IF w1.st # "empty" THEN NewLine(w1, o) ELSE w1
    IN  Indent(w2, o)

PutAttr(w, o, name, text) ==
    LET pre == IF ~o.aon THEN " "
               ELSE IF w.pres THEN "\n"
               ELSE "\n" \o (IF o.on THEN Times(o.ind, Len(w.stack) - 1) ELSE "") \o o.aind
    IN  Emit(w, pre \o name \o "=" \o o.q \o text \o o.q)

RECURSIVE PutAttrs(_, _, _)
PutAttrs(w, o, pairs) ==
    IF pairs = <<>> THEN w
    ELSE PutAttrs(PutAttr(w, o, Head(pairs)[1], Head(pairs)[2]), o, Tail(pairs))

SvgAttrs(d, n)    == SortSeq(SelectSeq(d.nd[n].at, LAMBDA a : ~IsCustom(a.n)),
                             LAMBDA a, b : AttributeRank[a.n] < AttributeRank[b.n])
CustomAttrs(d, n) == SelectSeq(d.nd[n].at, LAMBDA a : IsCustom(a.n))

\* the attributes of an element as name / escaped text pairs, in the order they are written
AttrPairs(d, n, q) ==
    LET x     == d.nd[n]
        top   == x.tag = "svg" /\ x.par # 0 /\ d.nd[x.par].k = "root"
        xlink == \E m \in Subtree(d, n) : HasAttr(d, m, "href")
        svg   == SelectSeq(SvgAttrs(d, n), LAMBDA a : ~(a.n = "unicode" /\ a.k # "string"))
        cus   == CustomAttrs(d, n)
    IN     (IF top THEN << <<"xmlns", "http://www.w3.org/2000/svg">> >> ELSE <<>>)
        \o (IF top /\ xlink THEN << <<"xmlns:xlink", "http://www.w3.org/1999/xlink">> >> ELSE <<>>)
        \o (IF x.id # "" THEN << <<"id", EscValue(x.id, q)>> >> ELSE <<>>)
        \o [i \in 1..Len(svg) |->
              <<AttrTextName(svg[i].n),
                IF svg[i].n = "unicode" THEN CodePoints(svg[i].t) ELSE EscValue(ValueText(d, svg[i]), q)>>]
        \o [i \in 1..Len(cus) |-> <<BareName(cus[i].n), EscValue(ValueText(d, cus[i]), q)>>]

InText(d, n) == \E m \in Range_(AncestorsOf(d, n)) : d.nd[m].tag = "text"

\* one edge of the traversal: n > 0 is the start of node n, n < 0 the end of node -n
WriteStart(w, d, o, n) ==
    LET x == d.nd[n] IN
    CASE x.k = "root"    -> w
      [] x.k = "element" ->
            LET w1 == Emit(Place(w, o), "<" \o BareName(x.tag))
                w2 == [w1 EXCEPT !.st = "attributes",
                                 !.stack = Append(@, [tag |-> BareName(x.tag), kids |-> FALSE])]
                w3 == PutAttrs(w2, o, AttrPairs(d, n, o.q))
            IN  [w3 EXCEPT !.pres = InText(d, n)]
      [] x.k = "comment" -> [Emit(Place(w, o), "<!--" \o x.tx \o "-->") EXCEPT !.st = "document"]
      [] x.k = "text"    -> [Emit(Place(w, o), EscText(x.tx)) EXCEPT !.st = "document"]

WriteEnd(w, d, o, n) ==
    IF d.nd[n].k # "element" THEN w
    ELSE LET top == Last(w.stack)
             w1  == [w EXCEPT !.stack = Front(@)]
             w2  == IF top.kids
                    THEN Emit(Indent(NewLine(w1, o), o), "</" \o top.tag \o ">")
                    ELSE Emit(w1, "/>")
         IN  [w2 EXCEPT !.st = "document",
                        !.pres = d.nd[n].par # 0 /\ InText(d, d.nd[n].par)]

RECURSIVE WriteEdges(_, _, _, _)
WriteEdges(w, d, o, es) ==
    IF es = <<>> THEN w
    ELSE LET e == Head(es)
             w1 == IF e > 0 THEN WriteStart(w, d, o, e) ELSE WriteEnd(w, d, o, -e)
         IN  WriteEdges(w1, d, o, Tail(es))

Output(d, optstr) ==
    LET o == Opt(optstr)
        w == WriteEdges([out |-> "", st |-> "empty", pres |-> FALSE, stack |-> <<>>], d, o, Edges(d, 1))
    IN  NewLine(w, o).out

\* the same document with its values spelled by the value library under the value options
Spelled(d, vs) ==
    IF vs = <<>> THEN d
    ELSE [d EXCEPT !.nd = TLCEval([n \in 1..Len(d.nd) |-> [d.nd[n] EXCEPT !.at =
             [j \in 1..Len(d.nd[n].at) |-> [d.nd[n].at[j] EXCEPT !.t = vs[n][j].t, !.fb = vs[n][j].fb]]]])]

WriteAnswer(d, optstr) == [out |-> Output(d, optstr)]
=============================================================================
