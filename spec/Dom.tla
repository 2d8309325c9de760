-------------------------------- MODULE Dom --------------------------------
(***************************************************************************)
(* The document object model of svgdom: one document, its nodes, their     *)
(* tree structure, attributes and links.  One operator per public call;    *)
(* each maps a document state to the next state and the call's result.     *)
(*                                                                         *)
(* A document state is a record                                            *)
(*   nd   : sequence of node records, indexed by the node's number (its    *)
(*          order of creation); node 1 is the root                         *)
(*   tops : sibling chains of two or more parentless nodes                 *)
(* A node record is                                                        *)
(*   k    : "root" | "element" | "comment" | "text"                        *)
(*   tag  : SVG tag name, or "@name" for a custom one                      *)
(*   id, tx : id and text                                                  *)
(*   par  : parent or 0;  kids : sequence of children                      *)
(*   at   : sequence of attributes [n, k, t, to, fb]                       *)
(*   us   : the nodes that link to this one, one entry per attribute       *)
(*   lv   : TRUE until the node is removed from the document               *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FiniteSets, SequencesExt, TLC

Range_(s) == {s[i] : i \in 1..Len(s)}

NoNode == 0

NewNode(k, tag, tx) ==
    [k |-> k, tag |-> tag, id |-> "", tx |-> tx, par |-> 0, kids |-> <<>>,
     at |-> <<>>, us |-> <<>>, lv |-> TRUE]

EmptyDoc == [nd |-> <<NewNode("root", "@", "")>>, tops |-> {}]

Nodes(d) == 1..Len(d.nd)
Ok(d)        == [d |-> d, r |-> "ok"]
Res(d, r)    == [d |-> d, r |-> r]
Refuse(d, r) == [d |-> d, r |-> r]          \* a refused call changes nothing

------------------------------------------------------------------------------
(* Tree structure *)

Without(s, x) == SelectSeq(s, LAMBDA y : y # x)
IndexOf(s, x) == CHOOSE i \in 1..Len(s) : s[i] = x

\* the sibling list that n is in
Sibs(d, n) ==
    IF d.nd[n].par # 0 THEN d.nd[d.nd[n].par].kids
    ELSE IF \E c \in d.tops : n \in Range_(c) THEN CHOOSE c \in d.tops : n \in Range_(c)
    ELSE <<n>>

PutTops(tops, old, new) ==
    (tops \ {old}) \cup (IF Len(new) > 1 THEN {new} ELSE {})

Detached(d, n) ==
    LET p == d.nd[n].par IN
    IF p # 0
    THEN [d EXCEPT !.nd[p].kids = Without(@, n), !.nd[n].par = 0]
    ELSE LET c == Sibs(d, n) IN [d EXCEPT !.tops = PutTops(@, c, Without(c, n))]

\* n and everything above it
RECURSIVE AncestorsOf(_, _)
AncestorsOf(d, n) ==
    IF d.nd[n].par = 0 THEN <<n>> ELSE <<n>> \o AncestorsOf(d, d.nd[n].par)

\* document order of the subtree of n
RECURSIVE Preorder(_, _)
Preorder(d, n) ==
    <<n>> \o FlattenSeq(TLCEval([i \in 1..Len(d.nd[n].kids) |-> Preorder(d, d.nd[n].kids[i])]))

Subtree(d, n) == Range_(Preorder(d, n))

\* Would placing `new` below / beside `tgt` close a cycle?
Cyclic(d, tgt, new) == new \in Range_(AncestorsOf(d, tgt))

PlaceChild(d, p, c, first) ==
    LET d1 == Detached(d, c) IN
    [d1 EXCEPT !.nd[p].kids = IF first THEN <<c>> \o @ ELSE Append(@, c),
               !.nd[c].par = p]

PlaceSibling(d, s, n, after) ==
    LET d1  == Detached(d, n)
        old == Sibs(d1, s)
        i   == IndexOf(old, s)
        new == IF after
               THEN SubSeq(old, 1, i) \o <<n>> \o SubSeq(old, i + 1, Len(old))
               ELSE SubSeq(old, 1, i - 1) \o <<n>> \o SubSeq(old, i, Len(old))
        p   == d1.nd[s].par
    IN  IF p # 0
        THEN [d1 EXCEPT !.nd[p].kids = new, !.nd[n].par = p]
        ELSE [d1 EXCEPT !.tops = PutTops(@, old, new)]

DoAppend(d, p, c)  == IF Cyclic(d, p, c) THEN Refuse(d, "panic") ELSE Ok(PlaceChild(d, p, c, FALSE))
DoPrepend(d, p, c) == IF Cyclic(d, p, c) THEN Refuse(d, "panic") ELSE Ok(PlaceChild(d, p, c, TRUE))
DoAfter(d, s, n)   == IF Cyclic(d, s, n) THEN Refuse(d, "panic") ELSE Ok(PlaceSibling(d, s, n, TRUE))
DoBefore(d, s, n)  == IF Cyclic(d, s, n) THEN Refuse(d, "panic") ELSE Ok(PlaceSibling(d, s, n, FALSE))
DoDetach(d, n)     == Ok(Detached(d, n))

------------------------------------------------------------------------------
(* Creation and node data *)

AddNode(d, rec) == [d EXCEPT !.nd = Append(@, rec)]

DoElement(d, tag)   == Ok(AddNode(d, NewNode("element", tag, "")))
DoNode(d, kind, tx) == Ok(AddNode(d, NewNode(kind, "@", tx)))
DoSetId(d, n, id)   == Ok([d EXCEPT !.nd[n].id = id])
DoSetText(d, n, tx) == Ok([d EXCEPT !.nd[n].tx = tx])
DoSetTag(d, n, tag) == Ok([d EXCEPT !.nd[n].tag = tag])

------------------------------------------------------------------------------
(* Attributes and links *)

LinkKinds == {"link", "func", "paint"}
IsLink(a) == a.k \in LinkKinds

Plain(n, k, t)      == [n |-> n, k |-> k, t |-> t, to |-> 0, fb |-> ""]

\* The variant of a link depends on the attribute's name only.
LinkAttr(n, to, fb) ==
    [n |-> n, t |-> "", to |-> to,
     k  |-> IF n = "href" THEN "link" ELSE IF n \in {"fill", "stroke"} THEN "paint" ELSE "func",
     fb |-> IF n \in {"fill", "stroke"} THEN fb ELSE ""]

HasAttr(d, n, name) == \E i \in 1..Len(d.nd[n].at) : d.nd[n].at[i].n = name
AttrIndex(d, n, name) ==
    IF HasAttr(d, n, name) THEN CHOOSE i \in 1..Len(d.nd[n].at) : d.nd[n].at[i].n = name ELSE 0

RemoveFirst_(s, x) ==
    LET i == CHOOSE i \in 1..Len(s) : s[i] = x /\ \A j \in 1..(i-1) : s[j] # x
    IN  SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))

\* Drops one attribute and, when it is a link, one entry at its target.
Unset(d, n, name) ==
    IF ~HasAttr(d, n, name) THEN d
    ELSE LET a  == d.nd[n].at[AttrIndex(d, n, name)]
             d1 == [d EXCEPT !.nd[n].at = SelectSeq(@, LAMBDA b : b.n # name)]
         IN  IF IsLink(a) THEN [d1 EXCEPT !.nd[a.to].us = RemoveFirst_(@, n)] ELSE d1

\* "" when the link is allowed
LinkError(d, n, to) ==
    IF d.nd[to].id = "" THEN "noid"
    ELSE IF d.nd[to].id = d.nd[n].id THEN "cross"
    ELSE IF to \in Range_(d.nd[n].us) THEN "cross"
    ELSE ""

PutPlain(d, n, a) ==
    LET d1 == Unset(d, n, a.n) IN [d1 EXCEPT !.nd[n].at = Append(@, a)]

PutLink(d, n, name, to, fb) ==
    LET d1 == Unset(d, n, name) IN
    [d1 EXCEPT !.nd[n].at = Append(@, LinkAttr(name, to, fb)),
               !.nd[to].us = Append(@, n)]

\* v is either a plain attribute or [n, k |-> "link", to, fb]
DoSet(d, n, v) ==
    IF v.k = "link"
    THEN LET e == LinkError(d, n, v.to) IN
         IF e # "" THEN Refuse(d, e) ELSE Ok(PutLink(d, n, v.n, v.to, v.fb))
    ELSE Ok(PutPlain(d, n, v))

\* set_attribute: panics where the checked one fails
DoSetP(d, n, v) ==
    LET s == DoSet(d, n, v) IN IF s.r = "ok" THEN s ELSE Refuse(d, "panic")

DoSetIfNone(d, n, v) == IF HasAttr(d, n, v.n) THEN Ok(d) ELSE DoSetP(d, n, v)
DoUnset(d, n, name)  == Ok(Unset(d, n, name))

\* in-place change of a plain value through attributes_mut()
DoMutate(d, n, v) ==
    LET i == AttrIndex(d, n, v.n) IN
    IF i = 0 THEN Res(d, "none")
    ELSE Ok([d EXCEPT !.nd[n].at[i] = v])

------------------------------------------------------------------------------
(* Removal *)

\* All nodes of S leave the document: they become free, childless, unlinked and dead.
RemoveSet(d, S) ==
    [d EXCEPT !.nd = TLCEval([m \in 1..Len(d.nd) |->
        LET x == d.nd[m] IN
        IF m \in S
        THEN [x EXCEPT !.at = SelectSeq(@, LAMBDA a : ~IsLink(a)), !.us = <<>>,
                       !.par = 0, !.kids = <<>>, !.lv = FALSE]
        ELSE [x EXCEPT !.at = SelectSeq(@, LAMBDA a : ~(IsLink(a) /\ a.to \in S)),
                       !.us = SelectSeq(@, LAMBDA u : u \notin S)]])]

Removed(d, n) == LET d1 == Detached(d, n) IN RemoveSet(d1, Subtree(d1, n))

DoRemove(d, n) == Ok(Removed(d, n))

\* predicates for drain
Accepts(d, n, k, s) ==
    CASE k = "tag"  -> d.nd[n].tag = s
      [] k = "kind" -> d.nd[n].k = s
      [] k = "id"   -> d.nd[n].id = s
      [] k = "attr" -> HasAttr(d, n, s)
      [] k = "used" -> d.nd[n].us # <<>>
      [] k = "unused" -> d.nd[n].k = "element" /\ d.nd[n].us = <<>>
      [] k = "empty"  -> d.nd[n].kids = <<>>
      [] k = "last"   -> Last(Sibs(d, n)) = n
      [] k = "all"  -> TRUE
      [] OTHER      -> FALSE

RECURSIVE DrainList(_, _, _, _, _)
DrainList(d, todo, k, s, count) ==
    IF todo = <<>> THEN [d |-> d, c |-> count]
    ELSE LET n == Head(todo) IN
         IF Accepts(d, n, k, s)
         THEN DrainList(Removed(d, n), Tail(todo), k, s, count + 1)
         ELSE LET inner == DrainList(d, d.nd[n].kids, k, s, count)
              IN  DrainList(inner.d, Tail(todo), k, s, inner.c)

DoDrain(d, n, k, s) ==
    LET x == DrainList(d, d.nd[n].kids, k, s, 0) IN Res(x.d, ToString(x.c))

------------------------------------------------------------------------------
(* Copies: the new nodes get the next numbers, in document order *)

CopyOne(d, n) ==
    LET m  == Len(d.nd) + 1
        x  == d.nd[n]
        d1 == AddNode(d, [NewNode(x.k, x.tag, x.tx) EXCEPT !.at = x.at])
    IN  [d1 EXCEPT !.nd = TLCEval([i \in 1..Len(d1.nd) |->
            LET mine == SelectSeq(x.at, LAMBDA a : IsLink(a) /\ a.to = i)
            IN  [d1.nd[i] EXCEPT !.us = @ \o [j \in 1..Len(mine) |-> m]]])]

RECURSIVE CopyKids(_, _, _)
CopyKids(d, todo, into) ==
    IF todo = <<>> THEN d
    ELSE LET m  == Len(d.nd) + 1
             d1 == PlaceChild(CopyOne(d, Head(todo)), into, m, FALSE)
             d2 == CopyKids(d1, d.nd[Head(todo)].kids, m)
         IN  CopyKids(d2, Tail(todo), into)

DoCopy(d, n) == Res(CopyOne(d, n), ToString(Len(d.nd) + 1))
DoDeep(d, n) ==
    LET m == Len(d.nd) + 1
    IN  Res(CopyKids(CopyOne(d, n), d.nd[n].kids, m), ToString(m))

------------------------------------------------------------------------------
(* The end of the document: nodes still held by the user are left bare *)

DoDrop(d) ==
    Ok([nd |-> TLCEval([m \in 1..Len(d.nd) |->
            IF d.nd[m].lv
            THEN [d.nd[m] EXCEPT !.at = <<>>, !.us = <<>>, !.par = 0, !.kids = <<>>]
            ELSE d.nd[m]]),
        tops |-> {}])

------------------------------------------------------------------------------
(* What the structural queries must answer *)

RECURSIVE Edges(_, _)
Edges(d, n) ==
    <<n>> \o FlattenSeq(TLCEval([i \in 1..Len(d.nd[n].kids) |-> Edges(d, d.nd[n].kids[i])])) \o <<-n>>

Reversed(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]

\* Taking items of s from both ends in the order given by the characters of pat; 0 when exhausted.
Mixed(s, pat) ==
    LET F[i \in 0..Len(pat)] ==
            IF i = 0 THEN [lo |-> 1, hi |-> Len(s), out |-> <<>>]
            ELSE LET p == F[i-1] IN
                 IF p.lo > p.hi THEN [p EXCEPT !.out = Append(@, 0)]
                 ELSE IF SubSeq(pat, i, i) = "f"
                      THEN [p EXCEPT !.lo = @ + 1, !.out = Append(@, s[p.lo])]
                      ELSE [p EXCEPT !.hi = @ - 1, !.out = Append(@, s[p.hi])]
    IN  F[Len(pat)].out

RootOf(d, n) == Last(AncestorsOf(d, n))
Preceding(d, n) == LET s == Sibs(d, n) IN Reversed(SubSeq(s, 1, IndexOf(s, n)))
Following(d, n) == LET s == Sibs(d, n) IN SubSeq(s, IndexOf(s, n), Len(s))
HasParent(d, n) == d.nd[n].par # 0 /\ d.nd[d.nd[n].par].k # "root"
IsSvgTag(t) == SubSeq(t, 1, 1) # "@"
SvgElement(d) ==
    LET s == SelectSeq(d.nd[1].kids, LAMBDA m : d.nd[m].tag = "svg")
    IN  IF s = <<>> THEN 0 ELSE Head(s)

QueryAnswer(d, n, pat) ==
    [ch  |-> d.nd[n].kids,
     chb |-> Reversed(d.nd[n].kids),
     chm |-> Mixed(d.nd[n].kids, pat),
     de  |-> Preorder(d, n),
     tr  |-> Edges(d, n),
     trb |-> Reversed(Edges(d, n)),
     trm |-> Mixed(Edges(d, n), pat),
     an  |-> AncestorsOf(d, n),
     pr  |-> Preceding(d, n),
     fo  |-> Following(d, n),
     sv  |-> SelectSeq(Preorder(d, n), LAMBDA m : IsSvgTag(d.nd[m].tag)),
     rt  |-> RootOf(d, n),
     hp  |-> HasParent(d, n),
     hc  |-> d.nd[n].kids # <<>>,
     se  |-> SvgElement(d),
     dr  |-> 1]

AccessAnswer(d, n, name) ==
    LET x == d.nd[n]
        i == AttrIndex(d, n, name)
        bit(b) == IF b THEN "1" ELSE "0"
    IN  [get |-> i, val |-> i, has |-> i # 0, con |-> i # 0,
         len |-> Len(x.at), emp |-> x.at = <<>>,
         svg |-> SelectSeq([j \in 1..Len(x.at) |-> j], LAMBDA j : IsSvgTag(x.at[j].n)),
         typ |-> bit(x.k = "root") \o bit(x.k = "element") \o bit(x.k = "comment") \o bit(x.k = "text")
                 \o bit(x.k = "element" /\ IsSvgTag(x.tag)) \o bit(x.id # "") \o bit(IsSvgTag(x.tag)),
         tn  |-> TRUE, tg |-> x.tag = "tref",
         is  |-> [j \in 1..Len(x.at) |-> x.at[j].k \o (IF IsLink(x.at[j]) THEN "+" ELSE "")]]

------------------------------------------------------------------------------
(* The projection of a state that an observer of the API sees *)

View_(d, n) ==
    LET x == d.nd[n]
        s == Sibs(d, n)
        i == IndexOf(s, n)
    IN  [k |-> x.k, tag |-> x.tag, id |-> x.id, tx |-> x.tx, lv |-> x.lv,
         par |-> x.par,
         fc |-> IF x.kids = <<>> THEN 0 ELSE Head(x.kids),
         lc |-> IF x.kids = <<>> THEN 0 ELSE Last(x.kids),
         ps |-> IF i = 1 THEN 0 ELSE s[i-1],
         ns |-> IF i = Len(s) THEN 0 ELSE s[i+1],
         kids |-> x.kids, at |-> x.at, us |-> x.us]

Views(d) == [n \in 1..Len(d.nd) |-> View_(d, n)]

Count(s, x) == Cardinality({i \in 1..Len(s) : s[i] = x})
SameBag(s, t) ==
    /\ Len(s) = Len(t)
    /\ s = t \/ \A x \in Range_(s) : Count(s, x) = Count(t, x)

------------------------------------------------------------------------------
(* One call, by name *)

Arg(e) == IF e.k = "link" THEN [n |-> e.s, k |-> "link", to |-> e.y, fb |-> e.fb]
          ELSE Plain(e.s, e.k, e.t)

Step(d, e) ==
    CASE e.op = "element" -> DoElement(d, e.s)
      [] e.op = "node"    -> DoNode(d, e.k, e.t)
      [] e.op = "append"  -> DoAppend(d, e.x, e.y)
      [] e.op = "prepend" -> DoPrepend(d, e.x, e.y)
      [] e.op = "after"   -> DoAfter(d, e.x, e.y)
      [] e.op = "before"  -> DoBefore(d, e.x, e.y)
      [] e.op = "detach"  -> DoDetach(d, e.x)
      [] e.op = "remove"  -> DoRemove(d, e.x)
      [] e.op = "drain"   -> DoDrain(d, e.x, e.k, e.s)
      [] e.op = "copy"    -> DoCopy(d, e.x)
      [] e.op = "deep"    -> DoDeep(d, e.x)
      [] e.op = "set"     -> DoSet(d, e.x, Arg(e))
      [] e.op = "setp"    -> DoSetP(d, e.x, Arg(e))
      [] e.op = "setif"   -> DoSetIfNone(d, e.x, Arg(e))
      [] e.op = "unset"   -> DoUnset(d, e.x, e.s)
      [] e.op = "amut"    -> DoMutate(d, e.x, Arg(e))
      [] e.op = "id"      -> DoSetId(d, e.x, e.t)
      [] e.op = "text"    -> DoSetText(d, e.x, e.t)
      [] e.op = "tag"     -> DoSetTag(d, e.x, e.s)
      [] e.op = "drop"    -> DoDrop(d)

------------------------------------------------------------------------------
(* Invariants of the model: the properties as predicates on a state *)

Chains(d) == {d.nd[n].kids : n \in Nodes(d)} \cup d.tops

\* D01: one ordered forest
Forest(d) ==
    /\ \A n \in Nodes(d) : d.nd[n].par # 0 => Count(d.nd[d.nd[n].par].kids, n) = 1
    /\ \A n \in Nodes(d) : \A i \in 1..Len(d.nd[n].kids) : d.nd[d.nd[n].kids[i]].par = n
    /\ \A n \in Nodes(d) : IsInjective(d.nd[n].kids)
    /\ \A c \in d.tops : Len(c) > 1 /\ IsInjective(c) /\ \A i \in 1..Len(c) : d.nd[c[i]].par = 0
    /\ \A c1, c2 \in d.tops : c1 # c2 => Range_(c1) \cap Range_(c2) = {}

\* no node is above itself: walking up at most Len(nd) times always ends
Acyclic(d) ==
    LET Up[n \in 0..Len(d.nd), k \in 0..Len(d.nd)] ==
            IF k = 0 \/ n = 0 THEN n ELSE Up[d.nd[n].par, k-1]
    IN  \A n \in Nodes(d) : Up[n, Len(d.nd)] = 0

\* D04: back-references are exactly the link attributes
LinksTo(d, m, n) == Cardinality({i \in 1..Len(d.nd[m].at) : IsLink(d.nd[m].at[i]) /\ d.nd[m].at[i].to = n})
LinkSymmetry(d) ==      \* said of the pairs with a link or a user only; the others have neither
    /\ \A n \in Nodes(d) : \A m \in Range_(d.nd[n].us) : Count(d.nd[n].us, m) = LinksTo(d, m, n)
    /\ \A m \in Nodes(d) : \A i \in 1..Len(d.nd[m].at) :
          IsLink(d.nd[m].at[i]) => Count(d.nd[d.nd[m].at[i].to].us, m) = LinksTo(d, m, d.nd[m].at[i].to)

\* D06: names are unique; the variant of a link fits its name
UniqueNames(d) ==
    \A n \in Nodes(d) : \A i, j \in 1..Len(d.nd[n].at) :
        i # j => d.nd[n].at[i].n # d.nd[n].at[j].n
LinkVariants(d) ==
    \A n \in Nodes(d) : \A i \in 1..Len(d.nd[n].at) : LET a == d.nd[n].at[i] IN
        IsLink(a) => a = LinkAttr(a.n, a.to, a.fb)

\* D07: dead nodes are free and nothing refers to them
DeadIsGone(d) ==
    \A n \in Nodes(d) : ~d.nd[n].lv =>
        /\ d.nd[n].us = <<>>
        /\ \A i \in 1..Len(d.nd[n].at) : ~IsLink(d.nd[n].at[i])
        /\ \A m \in Nodes(d) : \A i \in 1..Len(d.nd[m].at) : ~(IsLink(d.nd[m].at[i]) /\ d.nd[m].at[i].to = n)

\* D05: no two elements link to each other
NoMutualLinks(d) ==
    \A m \in Nodes(d) : \A i \in 1..Len(d.nd[m].at) :
        IsLink(d.nd[m].at[i]) => LinksTo(d, d.nd[m].at[i].to, m) = 0

TypeOK(d) ==
    /\ d.nd[1].k = "root"
    /\ \A n \in Nodes(d) :
        /\ d.nd[n].k \in {"root", "element", "comment", "text"}
        /\ d.nd[n].k # "element" => d.nd[n].at = <<>> /\ d.nd[n].id = ""
        /\ d.nd[n].par \in 0..Len(d.nd)
=============================================================================
