-------------------------------- MODULE Css --------------------------------
(***************************************************************************)
(* CSS selectors on an XML tree, specificity, and style sheets.            *)
(* xml is a sequence of nodes [k, ns, n, tx, par, at, de] in document      *)
(* order; par is a position in it or 0.                                    *)
(* A selector is a sequence of compounds [c, ty, subs]: the combinator     *)
(* before it ("" for the first, " ", ">", "+"), a type name or "*", and    *)
(* conditions [k, n, v]: k = "has", "is", "word", "dash" on attribute n,   *)
(* or "first-child", or "pseudo" (any other pseudo class).                 *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, SequencesExt, TLC

\* the attribute without a namespace, as a sequence of at most one value
PlainAttr(x, n) ==
    LET s == SelectSeq(x.at, LAMBDA a : a.ns = "" /\ a.n = n) IN IF s = <<>> THEN <<>> ELSE <<s[1].v>>

ParentElement(xml, e) == xml[e].par

\* the element just before e among its siblings, or 0
PrevElement(xml, e) ==
    LET s == {i \in 1..(e-1) : xml[i].k = "element" /\ xml[i].par = xml[e].par}
    IN  IF s = {} THEN 0 ELSE CHOOSE i \in s : \A j \in s : j <= i

StartsWith(v, p) == Len(v) >= Len(p) /\ SubSeq(v, 1, Len(p)) = p

\* is w one of the words of v, separated by single spaces?
HasWord(v, w) ==
    \E i \in 1..(Len(v) + 1) :
        /\ i = 1 \/ SubSeq(v, i-1, i-1) = " "
        /\ StartsWith(SubSeq(v, i, Len(v)), w)
        /\ i + Len(w) > Len(v) \/ SubSeq(v, i + Len(w), i + Len(w)) = " "

SubMatches(xml, e, q) ==
    LET a == PlainAttr(xml[e], q.n) IN
    CASE q.k = "has"  -> a # <<>>
      [] q.k = "is"   -> a = <<q.v>>
      [] q.k = "word" -> a # <<>> /\ HasWord(a[1], q.v)
      [] q.k = "dash" -> a # <<>> /\ (a[1] = q.v \/ StartsWith(a[1], q.v \o "-"))
      [] q.k = "first-child" -> PrevElement(xml, e) = 0
      [] q.k = "pseudo" -> FALSE

CompoundMatches(xml, e, c) ==
    /\ c.ty = "*" \/ xml[e].n = c.ty
    /\ \A i \in 1..Len(c.subs) : SubMatches(xml, e, c.subs[i])

RECURSIVE UpToRoot(_, _)
UpToRoot(xml, e) == IF e = 0 THEN {} ELSE {e} \cup UpToRoot(xml, xml[e].par)

\* does the prefix of length k of the selector match e?
RECURSIVE Prefix(_, _, _, _)
Prefix(xml, e, sel, k) ==
    /\ e # 0
    /\ CompoundMatches(xml, e, sel[k])
    /\ CASE sel[k].c = ""  -> TRUE
         [] sel[k].c = ">" -> Prefix(xml, ParentElement(xml, e), sel, k - 1)
         [] sel[k].c = "+" -> Prefix(xml, PrevElement(xml, e), sel, k - 1)
         [] sel[k].c = " " -> \E a \in UpToRoot(xml, ParentElement(xml, e)) : Prefix(xml, a, sel, k - 1)

Matches(xml, e, sel) == Prefix(xml, e, sel, Len(sel))

\* ids, other conditions, types
Specificity(sel) ==
    FoldLeft(LAMBDA s, c :
        LET ids == Len(SelectSeq(c.subs, LAMBDA q : q.n = "id" /\ q.k \notin {"first-child", "pseudo"})) IN
        <<s[1] + ids, s[2] + Len(c.subs) - ids, s[3] + (IF c.ty = "*" THEN 0 ELSE 1)>>, <<0, 0, 0>>, sel)

Lower(s, t) ==
    \/ s[1] < t[1]
    \/ s[1] = t[1] /\ s[2] < t[2]
    \/ s[1] = t[1] /\ s[2] = t[2] /\ s[3] < t[3]

\* stable insertion sort: a rule goes after all that are not higher
Sorted(rules) ==
    LET sp == TLCEval([i \in 1..Len(rules) |-> Specificity(rules[i].sel)])
        Insert(s, r) ==
            LET i == Len(SelectSeq(s, LAMBDA j : ~Lower(sp[r], sp[j])))
            IN  SubSeq(s, 1, i) \o <<r>> \o SubSeq(s, i + 1, Len(s))
        order == FoldLeft(LAMBDA s, r : Insert(s, r), <<>>, [i \in 1..Len(rules) |-> i])
    IN  [i \in 1..Len(order) |-> rules[order[i]]]

\* All rules of a document.  css: sequence of [tx, rules], the known style sheets by their text.
IsSheet(xml, e) ==
    /\ xml[e].k = "element"
    /\ xml[e].n = "style"
    /\ PlainAttr(xml[e], "type") \in {<<>>, <<"text/css">>}
    /\ e < Len(xml) /\ xml[e+1].par = e /\ xml[e+1].k = "text"

SheetRules(css, tx) ==
    LET s == SelectSeq(css, LAMBDA c : c.tx = tx) IN IF s = <<>> THEN <<>> ELSE s[1].rules

Rules(xml, css) ==
    Sorted(TLCEval(SelectSeq(
        FlattenSeq(TLCEval([e \in 1..Len(xml) |-> IF IsSheet(xml, e) THEN SheetRules(css, xml[e+1].tx) ELSE <<>>])),
        LAMBDA r : r.decls # <<>>)))
=============================================================================
