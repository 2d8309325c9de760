------------------------------- MODULE Reader -------------------------------
(***************************************************************************)
(* A reader of XML texts, independent of the writer: it turns a text into  *)
(* the list of its nodes.  Used to show that the writer's output carries   *)
(* the document whatever the options.                                      *)
(***************************************************************************)
EXTENDS Writer

RECURSIVE Find(_, _, _)
Find(s, i, C) == IF i > Len(s) \/ Chr(s, i) \in C THEN i ELSE Find(s, i + 1, C)
RECURSIVE Skip(_, _)
Skip(s, i) == IF i <= Len(s) /\ Chr(s, i) \in {" ", "\n", "\t", "\r"} THEN Skip(s, i + 1) ELSE i
Part(s, i, j) == SubSeq(s, i, j - 1)
Begins(s, i, p) == i + Len(p) - 1 <= Len(s) /\ SubSeq(s, i, i + Len(p) - 1) = p
RECURSIVE FindText(_, _, _)
FindText(s, i, p) == IF i > Len(s) \/ Begins(s, i, p) THEN i ELSE FindText(s, i + 1, p)

CharOfHex == [h \in {Hex[c] : c \in DOMAIN Hex} |-> CHOOSE c \in DOMAIN Hex : Hex[c] = h]

Entity(e) ==
    CASE e = "lt" -> "<" [] e = "gt" -> ">" [] e = "amp" -> "&" [] e = "quot" -> "\"" [] e = "apos" -> "'"
      [] e = "#9" -> "\t" [] e = "#10" -> "\n" [] e = "#13" -> "\r"
      [] Len(e) > 2 /\ SubSeq(e, 1, 2) = "#x" -> CharOfHex[SubSeq(e, 3, Len(e))]

RECURSIVE Decode(_)
Decode(s) ==
    LET i == Find(s, 1, {"&"}) IN
    IF i > Len(s) THEN s
    ELSE LET j == Find(s, i, {";"}) IN
         Part(s, 1, i) \o Entity(Part(s, i + 1, j)) \o Decode(SubSeq(s, j + 1, Len(s)))

\* attributes of a start tag from position i: [i, at], i at ">" or "/"
RECURSIVE ReadAttrs(_, _, _)
ReadAttrs(s, i, at) ==
    LET j == Skip(s, i) IN
    IF Chr(s, j) \in {">", "/"} THEN [i |-> j, at |-> at]
    ELSE LET e == Find(s, j, {"="})
             q == Chr(s, e + 1)
             z == Find(s, e + 2, {q})
         IN  ReadAttrs(s, z + 1, Append(at, <<Part(s, j, e), Decode(Part(s, e + 2, z))>>))

XNode(k, n, tx, par, at) == [k |-> k, n |-> n, tx |-> tx, par |-> par, at |-> at]

RECURSIVE Scan(_, _, _, _)
Scan(s, i, par, nodes) ==
    IF i > Len(s) THEN nodes
    ELSE IF Begins(s, i, "<!--")
    THEN LET j == FindText(s, i + 4, "-->") IN
         Scan(s, j + 3, par, Append(nodes, XNode("comment", "", Part(s, i + 4, j), par, <<>>)))
    ELSE IF Begins(s, i, "</")
    THEN Scan(s, Find(s, i, {">"}) + 1, nodes[par].par, nodes)
    ELSE IF Begins(s, i, "<")
    THEN LET j == Find(s, i, {" ", "\n", "\t", "/", ">"})
             a == ReadAttrs(s, j, <<>>)
             e == Append(nodes, XNode("element", Part(s, i + 1, j), "", par, a.at))
         IN  IF Chr(s, a.i) = "/" THEN Scan(s, a.i + 2, par, e) ELSE Scan(s, a.i + 1, Len(e), e)
    ELSE LET j == Find(s, i, {"<"}) IN
         Scan(s, j, par, Append(nodes, XNode("text", "", Decode(Part(s, i, j)), par, <<>>)))

Read(s) == Scan(s, 1, 0, <<>>)

------------------------------------------------------------------------------
(* What must be read: the nodes below the root *)

RawAttrs(d, n) ==
    LET x     == d.nd[n]
        top   == x.tag = "svg" /\ x.par # 0 /\ d.nd[x.par].k = "root"
        xlink == \E m \in Subtree(d, n) : HasAttr(d, m, "href")
        svg   == SelectSeq(SvgAttrs(d, n), LAMBDA a : ~(a.n = "unicode" /\ a.k # "string"))
        all   == svg \o CustomAttrs(d, n)
    IN     (IF top THEN << <<"xmlns", "http://www.w3.org/2000/svg">> >> ELSE <<>>)
        \o (IF top /\ xlink THEN << <<"xmlns:xlink", "http://www.w3.org/1999/xlink">> >> ELSE <<>>)
        \o (IF x.id # "" THEN << <<"id", x.id>> >> ELSE <<>>)
        \o [i \in 1..Len(all) |-> <<AttrTextName(all[i].n), ValueText(d, all[i])>>]

Content(d) ==
    LET p == Tail(Preorder(d, 1)) IN
    [i \in 1..Len(p) |->
        LET x == d.nd[p[i]] IN
        XNode(x.k, IF x.k = "element" THEN BareName(x.tag) ELSE "", x.tx,
              IF x.par = 1 THEN 0 ELSE IndexOf(p, x.par),
              IF x.k = "element" THEN RawAttrs(d, p[i]) ELSE <<>>)]

------------------------------------------------------------------------------
(* Comparison: neighbouring texts are one text, and an empty one is none.  With indentation the      *)
(* whitespace outside of text elements does not count.                                               *)

RECURSIVE XInText(_, _)
XInText(v, i) == IF i = 0 THEN FALSE ELSE v[i].n = "text" \/ XInText(v, v[i].par)

Spaceless(s) == MapChars(s, LAMBDA c : IF c \in {" ", "\n", "\t", "\r"} THEN "" ELSE c)

\* texts joined and, unless exact, without whitespace outside of text elements; parents by their number
\* among the elements and comments
Canon(v, exact) ==
    LET txt(i) == IF exact \/ XInText(v, v[i].par) THEN v[i].tx ELSE Spaceless(v[i].tx)
        keep(i) == v[i].k # "text"
        num(i) == Cardinality({j \in 1..i : keep(j)})
        C[i \in 0..Len(v)] ==
            IF i = 0 THEN <<>>
            ELSE IF keep(i) THEN Append(C[i-1], [v[i] EXCEPT !.par = IF @ = 0 THEN 0 ELSE num(@)])
            ELSE IF txt(i) = "" THEN C[i-1]
            ELSE LET p == IF v[i].par = 0 THEN 0 ELSE num(v[i].par)
                     l == C[i-1]
                 IN  IF l # <<>> /\ Last(l).k = "text" /\ Last(l).par = p
                     THEN [l EXCEPT ![Len(l)].tx = @ \o txt(i)]
                     ELSE Append(l, [v[i] EXCEPT !.par = p, !.tx = txt(i)])
    IN  C[Len(v)]

Indented(optstr) == Opt(optstr).on

------------------------------------------------------------------------------
(* What an XML parser reports: [k, ns, n, tx, par, at : sequence of [ns, n, v]] *)

XName(a) == CASE a.ns = "xlink" -> "xlink:" \o a.n [] a.ns = "xml" -> "xml:" \o a.n [] a.ns = "" -> a.n [] OTHER -> "?" \o a.n
Reported(rd) == [i \in 1..Len(rd) |-> XNode(rd[i].k, rd[i].n, rd[i].tx, rd[i].par,
                                          [j \in 1..Len(rd[i].at) |-> <<XName(rd[i].at[j]), rd[i].at[j].v>>])]
Undeclared(v) == [i \in 1..Len(v) |-> [v[i] EXCEPT !.at = SelectSeq(@, LAMBDA p : p[1] \notin {"xmlns", "xmlns:xlink"})]]

\* Can the document be written as XML at all? One element at the top, prefixes declared, names usable and distinct.
NoDuplicates(s) == \A i, j \in 1..Len(s) : i # j => s[i] # s[j]
Dashes(s) == (\E i \in 1..(Len(s) - 1) : SubSeq(s, i, i + 1) = "--") \/ (s # "" /\ Chr(s, Len(s)) = "-")
Readable(d) ==
    LET tops == SelectSeq(d.nd[1].kids, LAMBDA n : d.nd[n].k = "element")
        all  == Range_(Tail(Preorder(d, 1)))
        els  == {n \in all : d.nd[n].k = "element"}
    IN  /\ Len(tops) = 1
        /\ \A n \in Range_(d.nd[1].kids) : d.nd[n].k # "text"
        /\ \A n \in all \ els : d.nd[n].kids = <<>>
        /\ d.nd[tops[1]].tag = "svg" \/ \A n \in els : ~HasAttr(d, n, "href")
        /\ \A n \in els :
              /\ ~HasChar(d.nd[n].tag, {":", " "})
              /\ \A i \in 1..Len(d.nd[n].at) : ~HasChar(d.nd[n].at[i].n, {":", " "})
              /\ LET r == RawAttrs(d, n) IN NoDuplicates([i \in 1..Len(r) |-> r[i][1]])
        /\ \A n \in all : d.nd[n].k = "comment" => ~Dashes(d.nd[n].tx)
        /\ \A n \in all : d.nd[n].k = "text" => ~HasChar(d.nd[n].tx, {"&"})     \* see known finding W04-1

\* rd: the report of an XML parser on the output, wf: it accepted the output
ReadsBack(d, optstr, wf, rd) ==
    Readable(d) =>
        /\ wf
        /\ Canon(Reported(rd), ~Indented(optstr)) = Canon(Undeclared(Content(d)), ~Indented(optstr))
        /\ \A i \in 1..Len(rd) : rd[i].k = "element" =>
              rd[i].ns = (IF d.nd[SelectSeq(d.nd[1].kids, LAMBDA n : d.nd[n].k = "element")[1]].tag = "svg" THEN "svg" ELSE "")

Carried(d, optstr, out) == Canon(Read(out), ~Indented(optstr)) = Canon(Content(d), ~Indented(optstr))
=============================================================================
