------------------------------- MODULE MCDom -------------------------------
(***************************************************************************)
(* Exhaustive exploration of Dom in small scopes.  Every transition is     *)
(* printed as a behaviour (the calls that lead to it), with the result and *)
(* the state the specification requires; the conformance harness replays   *)
(* it against the real library.                                            *)
(*                                                                         *)
(* Scopes:                                                                 *)
(*   tree    all histories of insertions and detachments of N free nodes   *)
(*   query   the same states; every query of every node in every state     *)
(*   links   all histories of at most D attribute calls on N elements      *)
(*   remove, drain, copy                                                   *)
(*           one call on every tree of N elements with every assignment of *)
(*           at most L links                                               *)
(*   kinds   one removal, drain or copy on every tree of N nodes of every  *)
(*           kind: any node can have children                              *)
(***************************************************************************)
EXTENDS Dom, Json

CONSTANTS Scope, N, D, L

VARIABLES doc, path, dep, res
vars == <<doc, path, dep, res>>

E0 == [op |-> "", x |-> 0, y |-> 0, s |-> "", k |-> "", t |-> "", fb |-> ""]
Call(op, x, y)        == [E0 EXCEPT !.op = op, !.x = x, !.y = y]
Create(tag)           == [E0 EXCEPT !.op = "element", !.s = tag]
SetId(n, id)          == [E0 EXCEPT !.op = "id", !.x = n, !.t = id]
Link(op, n, name, to, fb) == [E0 EXCEPT !.op = op, !.x = n, !.y = to, !.s = name, !.k = "link", !.fb = fb]
Value(op, n, name, k, t)  == [E0 EXCEPT !.op = op, !.x = n, !.s = name, !.k = k, !.t = t]
DrainOf(n, k, s)      == [E0 EXCEPT !.op = "drain", !.x = n, !.k = k, !.s = s]

Tok(s) == IF s = "" THEN "~" ELSE s
Enc(e) == e.op \o " " \o ToString(e.x) \o " " \o ToString(e.y) \o " " \o Tok(e.s) \o " " \o Tok(e.k)
          \o " " \o Tok(e.t) \o " " \o Tok(e.fb) \o ";"

RECURSIVE RunAll(_, _, _)
RunAll(d, p, es) ==
    IF es = <<>> THEN [d |-> d, p |-> p]
    ELSE RunAll(Step(d, Head(es)).d, p \o Enc(Head(es)), Tail(es))

Els == 2..(N+1)
TagOf(n) == IF n % 2 = 0 THEN "g" ELSE "rect"
IdOf(n)  == "i" \o ToString(n)

------------------------------------------------------------------------------
(* Initial states *)

Creates == [i \in 1..N |-> Create(TagOf(i + 1))]

\* N free elements
InitFree == LET r == RunAll(EmptyDoc, "", Creates) IN {r}

\* elements with ids; the last one has none, the one before it shares an id
InitLinks ==
    LET ids == [i \in 1..(N-1) |-> SetId(i + 1, IF i = N - 1 /\ N > 3 THEN "i2" ELSE IdOf(i + 1))]
        put == [i \in 1..N |-> Call("append", IF i = 3 THEN 2 ELSE 1, i + 1)]
    IN  {RunAll(EmptyDoc, "", Creates \o ids \o put)}

\* all trees: the parent of n is an older node; all assignments of at most L links
Parents == {p \in [Els -> 1..N] : \A n \in Els : p[n] < n}
LinkNames == <<"fill", "href", "@ref", "clip-path">>
Wires == LET all == {w \in Els \X Els : w[1] # w[2]} IN {W \in SUBSET all : Cardinality(W) <= L}

InitTrees(n_) ==
    UNION {{ LET ids  == [i \in 1..N |-> SetId(i + 1, IdOf(i + 1))]
                 put  == [i \in 1..N |-> Call("append", p[i + 1], i + 1)]
                 ws   == SetToSeq(W)
                 ln   == [i \in 1..Len(ws) |-> Link("set", ws[i][1], LinkNames[((i + ws[i][2]) % 4) + 1], ws[i][2], "")]
             IN  RunAll(EmptyDoc, "", Creates \o ids \o put \o ln) : W \in Wires } : p \in Parents}

\* every tree of nodes of every kind
KindCalls == {Create("g"), Create("rect"), [E0 EXCEPT !.op = "node", !.k = "text", !.t = "t"],
              [E0 EXCEPT !.op = "node", !.k = "text"], [E0 EXCEPT !.op = "node", !.k = "comment", !.t = "c"]}
\* (with a parameter, so that TLC does not compute it in other scopes)
InitKinds(n_) ==
    UNION {{ LET put == [i \in 1..N |-> Call("append", p[i + 1], i + 1)]
             IN  RunAll(EmptyDoc, "", m \o put) : m \in [1..N -> KindCalls] } : p \in Parents}

Init ==
    /\ \E r \in (CASE Scope \in {"tree", "query"} -> InitFree
                  [] Scope = "links" -> InitLinks
                  [] Scope = "kinds" -> InitKinds(N)
                  [] OTHER -> InitTrees(N)) : doc = r.d /\ path = r.p
    /\ dep = 0
    /\ res = "ok"

------------------------------------------------------------------------------
(* Calls *)

TreeCalls ==
    {Call(op, x, y) : op \in {"append", "prepend"}, x \in 1..(N+1), y \in Els}
    \cup {Call(op, x, y) : op \in {"after", "before"}, x \in Els, y \in Els}
    \cup {Call("detach", x, 0) : x \in Els}

Names_ == {"href", "fill", "filter"}
LinkCalls ==
    {Link(op, x, n, y, fb) : op \in {"set"}, x \in Els, n \in Names_, y \in Els, fb \in {""}}
    \cup {Link("set", x, "stroke", y, "none") : x \in Els, y \in Els}
    \cup {Link("setp", x, "fill", y, "none") : x \in Els, y \in Els}
    \cup {Link("setif", x, "fill", y, "") : x \in Els, y \in Els}
    \cup {Link("set", x, "@ref", y, "") : x \in Els, y \in Els}
    \cup {Value("set", x, n, "string", "v") : x \in Els, n \in {"fill", "href", "x"}}
    \cup {Value("setif", x, n, "none", "") : x \in Els, n \in {"fill", "x"}}
    \cup {[E0 EXCEPT !.op = "unset", !.x = x, !.s = n] : x \in Els, n \in Names_ \cup {"@ref"}}
    \cup {Call("remove", N, 0), Call("copy", 2, 0)}

DrainCalls ==
    {DrainOf(n, "tag", t) : n \in 1..(N+1), t \in {"g", "rect"}}
    \cup {DrainOf(n, "id", IdOf(m)) : n \in {1, 2}, m \in Els}
    \cup {DrainOf(1, "attr", LinkNames[i]) : i \in 1..4}
    \cup {DrainOf(1, "used", ""), DrainOf(1, "unused", ""), DrainOf(1, "empty", ""), DrainOf(1, "last", ""), DrainOf(2, "empty", ""), DrainOf(1, "all", ""), DrainOf(2, "all", ""), DrainOf(1, "never", "")}

Calls ==
    CASE Scope \in {"tree", "query"} -> TreeCalls
      [] Scope = "links"  -> LinkCalls
      [] Scope = "kinds"  ->
            {DrainOf(1, "kind", k) : k \in {"text", "comment", "element"}} \cup {DrainOf(n, "tag", "g") : n \in {1, 2}}
            \cup {Call(op, x, 0) : op \in {"remove", "copy", "deep"}, x \in Els}
      [] Scope = "remove" -> {Call("remove", x, 0) : x \in Els}
      [] Scope = "drain"  -> DrainCalls
      [] Scope = "copy"   -> {Call(op, x, 0) : op \in {"copy", "deep"}, x \in Els}

Next ==
    /\ dep < D
    /\ \E e \in Calls :
        /\ \A n \in {e.x, e.y} \ {0} : doc.nd[n].lv      \* removed nodes are not used any more
        /\ LET s == Step(doc, e) IN
           /\ doc' = TLCEval(s.d)
           /\ path' = path \o Enc(e)
           /\ dep' = IF Scope \in {"tree", "query"} THEN 0 ELSE dep + 1
           /\ res' = s.r

Spec == Init /\ [][Next]_vars

------------------------------------------------------------------------------
(* Output *)

PrintStep ==
    \/ Scope = "query"
    \/ PrintT("STEP " \o ToJson([p |-> path', r |-> res', s |-> Views(doc')]))

Bits == {"f", "b"}
Patterns == {a \o b \o c \o d : a \in Bits, b \in Bits, c \in Bits, d \in Bits}
Long(p) == p \o p \o p
PrintState ==
    \/ Scope # "query"
    \/ \A n \in Nodes(doc) : \A p \in Patterns :
        PrintT("QUERY " \o ToJson([p |-> path \o "query " \o ToString(n) \o " 0 ~ ~ " \o Long(p) \o " ~;",
                                   q |-> QueryAnswer(doc, n, Long(p))]))

\* The order in which users are listed is not part of the state.
Key == [d |-> [doc EXCEPT !.nd = [i \in Nodes(doc) |-> [doc.nd[i] EXCEPT !.us =
                  SortSeq(@, LAMBDA a, b : a < b)]]],
        dep |-> dep]

Inv == /\ TypeOK(doc) /\ Forest(doc) /\ Acyclic(doc) /\ LinkSymmetry(doc) /\ UniqueNames(doc)
       /\ LinkVariants(doc) /\ DeadIsGone(doc) /\ NoMutualLinks(doc) /\ PrintState

\* D05, D03: a refused call changes nothing
RefusalIsNoOp == [][res' \in {"panic", "noid", "cross"} => doc' = doc]_vars
=============================================================================
