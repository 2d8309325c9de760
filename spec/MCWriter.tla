------------------------------ MODULE MCWriter ------------------------------
(***************************************************************************)
(* Exhaustive families of small documents for the writer.  For every       *)
(* document and every combination of options, the output read by Reader    *)
(* gives the document back, and outputs under different options read the   *)
(* same.  Every document is printed with its outputs, to be built and      *)
(* written by the real library.                                            *)
(***************************************************************************)
EXTENDS Reader
CONSTANTS Scope, N
VARIABLE d

Opts == CASE Scope = "nest"    -> <<"dnn", "snn", "d4n", "s2n", "d0n", "dtn", "dn1", "snt", "d41", "s1t", "dt0", "s02">>
          [] Scope = "strings" -> <<"dnn", "snn", "d4n", "s1t">>
          [] Scope = "attrs"   -> <<"dnn", "s20">>

Put(x, p, node) == LET m == Len(x.nd) + 1 IN PlaceChild(AddNode(x, node), p, m, FALSE)
Elem(tag, id, at) == [NewNode("element", tag, "") EXCEPT !.id = id, !.at = at]
Svg == Put(EmptyDoc, 1, Elem("svg", "", <<>>))

\* the rightmost path
RECURSIVE Right(_, _)
Right(x, n) == {n} \cup (IF x.nd[n].kids = <<>> THEN {} ELSE LET k == Last(x.nd[n].kids) IN IF x.nd[k].k = "element" THEN Right(x, k) ELSE {})

A1 == <<Plain("x", "number", "1")>>
A2 == <<Plain("y", "number", "2"), Plain("@b", "string", "'"), Plain("x", "number", "1")>>

NestNodes == {Elem("g", "", <<>>), Elem("text", "", <<>>), Elem("tspan", "", A1), Elem("@custom", "i", A2),
              NewNode("text", "@", "a"), NewNode("text", "@", " "), NewNode("comment", "@", "c")}
Nest == \E p \in Right(d, 1) \ {1}, n \in NestNodes : d' = Put(d, p, n)

\* strings of up to N special characters, wherever a string can be
Chars == {"\"", "'", "<", "&", ">", "]", "\t", "\n", "\r", " ", "a", ";"}
RECURSIVE Words(_)
Words(n) == IF n = 0 THEN {""} ELSE {w \o c : w \in Words(n - 1), c \in Chars} \cup Words(n - 1)
NoAmp(s) == ~HasChar(s, {"&"})      \* see known finding W04-1
Strings == \E w \in Words(N) :
    LET e == Elem("rect", w, <<Plain("class", "string", w), Plain("@c", "string", w), Plain("unicode", "string", w)>>)
        x == Put(Svg, 2, e)
        y == IF NoAmp(w) THEN Put(Put(Put(x, 3, NewNode("text", "@", w)), 2, Elem("text", "", <<>>)), 5, NewNode("text", "@", w)) ELSE x
    IN  Len(d.nd) = 2 /\ d' = y

\* every order of some attributes, links among them
Links == {Plain("fill", "none", ""), Plain("x", "number", "0.5"), Plain("space", "string", "preserve"), Plain("@z", "string", "q"),
          Plain("@a", "inherit", ""), Plain("y", "length", "5mm")}
Orders == \E S \in {S \in SUBSET Links : Cardinality(S) <= N}, t \in {0, 1, 2} : \E s \in SetToSeqs(S) :
    LET e == Elem("g", "g1", s)
        x == Put(Put(Svg, 2, e), 2, Elem("use", "", <<>>))
        y == IF t = 0 THEN x
             ELSE DoSet(x, 4, [n |-> IF t = 1 THEN "href" ELSE "stroke", k |-> "link", to |-> 3, fb |-> IF t = 1 THEN "" ELSE "#ff0000"]).d
    IN  Len(d.nd) = 2 /\ d' = y

Init == d = Svg
Next == CASE Scope = "nest"    -> Len(d.nd) < N + 2 /\ Nest
          [] Scope = "strings" -> Strings
          [] Scope = "attrs"   -> Orders
Spec == Init /\ [][Next]_d

Outs == [i \in 1..Len(Opts) |-> Output(d, Opts[i])]
Faithful ==
    LET outs == TLCEval(Outs) IN
    /\ \A i \in 1..Len(Opts) : Carried(d, Opts[i], outs[i])
    /\ PrintT("WDOC " \o ToJson([nd |-> d.nd, o |-> Opts, w |-> outs]))
=============================================================================
