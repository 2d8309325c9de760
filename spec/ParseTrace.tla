----------------------------- MODULE ParseTrace -----------------------------
(***************************************************************************)
(* Documents parsed by the real library, checked against Parse (and their  *)
(* outputs against Writer).  One TLC state per step of the parser machine. *)
(***************************************************************************)
EXTENDS Parse, Reader, IOUtils

File  == JsonDeserialize(IOEnv.TRACE_FILE)
Cases == File.cases
Lex   == File.lex

VARIABLES t, s, rules
vars == <<t, s, rules>>
View == <<t, s.ph, s.pos>>

Case(i) == [xml |-> Cases[i].xml, css |-> Cases[i].css, lex |-> Lex]

Init == /\ t \in 1..Len(Cases)
        /\ s = Start
        /\ rules = Rules(Cases[t].xml, Cases[t].css)

------------------------------------------------------------------------------
(* Comparison *)

\* elements and comments, in order, with the number of their parent among them
Solid(v) == SelectSeq([i \in 1..Len(v) |-> i], LAMBDA i : v[i].k # "text")
Rank(sol, i) == IF i = 0 THEN 0 ELSE LET m == SelectSeq(sol, LAMBDA j : j = i) IN
                IF m = <<>> THEN -1 ELSE IndexOf(sol, i)

Skeleton(v) ==
    LET sol == Solid(v) IN
    [i \in 1..Len(sol) |-> [k |-> v[sol[i]].k, tag |-> v[sol[i]].tag, par |-> Rank(sol, v[sol[i]].par),
                            tx |-> v[sol[i]].tx]]

\* the letters of each text that has any
Letters(v) ==
    LET sol == Solid(v)
        ts == SelectSeq([i \in 1..Len(v) |-> i], LAMBDA i : v[i].k = "text" /\ NonSpace(v[i].tx) # "")
    IN  [i \in 1..Len(ts) |-> <<Rank(sol, v[ts[i]].par), NonSpace(v[ts[i]].tx)>>]

Texts(v) == LET sol == Solid(v)
                ts == SelectSeq([i \in 1..Len(v) |-> i], LAMBDA i : v[i].k = "text")
            IN  [i \in 1..Len(ts) |-> <<Rank(sol, v[ts[i]].par), v[ts[i]].tx>>]

\* attributes as a set, links by the rank of their target
AttrSet(v, i) ==
    LET sol == Solid(v) IN
    {[v[i].at[j] EXCEPT !.to = Rank(sol, @)] : j \in 1..Len(v[i].at)}

Users(v, i) == LET sol == Solid(v) IN [j \in 1..Len(v[i].us) |-> Rank(sol, v[i].us[j])]

\* names of the attributes that differ, with both kinds
AttrDiff(a, b) ==
    LET ns == {x.n : x \in (a \ b) \cup (b \ a)}
        kd(q, n) == LET m == {x \in q : x.n = n} IN IF m = {} THEN "" ELSE (CHOOSE x \in m : TRUE).k
    IN  {<<n, kd(a, n), kd(b, n)>> : n \in ns}

Pointers(v, o) == \A i \in 1..Len(v) : v[i].par = o[i].par /\ v[i].fc = o[i].fc /\ v[i].lc = o[i].lc
                                      /\ v[i].ps = o[i].ps /\ v[i].ns = o[i].ns /\ v[i].kids = o[i].kids
                                      /\ o[i].lv

\* the facets in which the observed document o differs from the expected one v
DocFacets(v, o) ==
    LET sv == Solid(v)
        so == Solid(o)
    IN  (IF Skeleton(v) # Skeleton(o) THEN {<<"skeleton", 0>>}
         ELSE UNION {
              (IF v[sv[i]].id # o[so[i]].id THEN {<<"id", i>>} ELSE {})
         \cup {<<"attr", i, f>> : f \in AttrDiff(AttrSet(v, sv[i]), AttrSet(o, so[i]))}
         \cup (IF Len(v[sv[i]].at) # Len(o[so[i]].at) THEN {<<"attrs", i>>} ELSE {})
         \cup (IF ~SameBag(Users(v, sv[i]), Users(o, so[i])) \/ o[so[i]].uc # Len(o[so[i]].us)
                  \/ (o[so[i]].iu # (o[so[i]].us # <<>>)) THEN {<<"users", i>>} ELSE {})
              : i \in 1..Len(sv)})
    \cup (IF Letters(v) # Letters(o) THEN {<<"letters", 0>>} ELSE {})
    \cup (IF Texts(v) # Texts(o) THEN {<<"text", 0>>} ELSE {})
    \cup (IF Len(v) = Len(o) /\ Skeleton(v) = Skeleton(o) /\ Texts(v) = Texts(o) /\ ~Pointers(v, o)
          THEN {<<"tree", 0>>} ELSE {})

\* the observed document as a state of Dom
Observed(o) == [nd |-> TLCEval([i \in 1..Len(o) |-> [k |-> o[i].k, tag |-> o[i].tag, id |-> o[i].id, tx |-> o[i].tx,
                                             par |-> o[i].par, kids |-> o[i].kids, at |-> o[i].at, us |-> o[i].us,
                                             lv |-> o[i].lv]]), tops |-> {}]

OutFacets(c) ==
    LET d == Observed(c.s) IN {<<IF c.vs[i] = <<>> THEN "write" ELSE "spell", i>> :
                                   i \in {i \in 1..Len(c.w) : c.w[i] # Output(Spelled(d, c.vs[i]), c.o[i])}}
                              \cup {<<"read", i>> : i \in {i \in 1..Len(c.rd) : ~ReadsBack(Spelled(d, c.vs[i]), c.o[i], c.rd[i].wf, c.rd[i].rd)}}

\* parsing the output again: same document (adjacent texts joined), same output
Joinable(v) ==   \* the document as a sequence in which neighbouring texts are one
    LET sol == Solid(v)
        J[i \in 0..Len(v)] ==
            IF i = 0 THEN <<>>
            ELSE IF v[i].k = "text"
            THEN IF v[i].ps # 0 /\ v[v[i].ps].k = "text"
                 THEN LET b == J[i-1] IN [b EXCEPT ![Len(b)].tx = @ \o v[i].tx]
                 ELSE Append(J[i-1], [k |-> "text", tag |-> "", id |-> "", par |-> Rank(sol, v[i].par), tx |-> v[i].tx, at |-> {}])
            ELSE Append(J[i-1], [k |-> v[i].k, tag |-> v[i].tag, id |-> v[i].id, par |-> Rank(sol, v[i].par),
                                 tx |-> v[i].tx, at |-> AttrSet(v, i)])
    IN  J[Len(v)]

\* Indentation adds whitespace outside of text elements, where it is harmless unless it is preserved
\* or comes between two texts.  A tspan outside of a text element keeps blanks, so there it is a text of its own.
IndentSafe(d) ==
    /\ \A n \in Nodes(d) : d.nd[n].k = "element" /\ SpaceAt(d, n) = "preserve" => InText(d, n)
    /\ LET us == UnitsBelow(d, 1) IN
       \A i \in 1..Len(us) : d.nd[us[i]].tag # "text" => Len(TextsBelow(d, us[i])) < 2
    /\ \A n \in Nodes(d) : d.nd[n].tag \in KeepBlank \ {"text"} /\ ~InText(d, n) /\ TextsBelow(d, n) # <<>> =>
          \A j \in 1..Len(d.nd[n].kids) : d.nd[d.nd[n].kids[j]].k = "text"

AgainFacets(c) ==
    LET safe == IndentSafe(Observed(c.s)) IN
    UNION {IF Opt(c.o[i]).on /\ ~safe THEN {} ELSE
      (IF c.again[i].r # "ok" \/ Joinable(c.again[i].s) # Joinable(c.s) THEN {<<"reread", i>>} ELSE {})
      \cup (IF ~c.again[i].same THEN {<<"rewrite", i>>} ELSE {}) : i \in 1..Len(c.again)}

Verdict(c, st) ==
    (IF c.r # Result(st) THEN {<<"result", 0>>}
     ELSE IF c.r # "ok" THEN {}
     ELSE DocFacets(TLCEval(Views(Renumbered(st.doc))), c.s))
    \cup (IF c.r = "ok" THEN OutFacets(c) \cup AgainFacets(c) ELSE {})

Report(bad, st) ==
    PrintT("DIVERGE " \o ToJson([t |-> t, bad |-> bad, want |-> Result(st),
                                 exp |-> IF st.ph = "done" THEN Renumbered(st.doc).nd ELSE <<>>]))

Next ==
    /\ Result(s) = ""
    /\ s' = StepParse(Case(t), s, rules)
    /\ LET r == Result(s') IN
       IF r = "" THEN TRUE
       ELSE LET bad == Verdict(Cases[t], s') IN IF bad = {} THEN TRUE ELSE Report(bad, s')
    /\ UNCHANGED <<t, rules>>

Spec == Init /\ [][Next]_vars

InvLinks   == LinksLegal(s)
InvSettled == Settled(s)
InvForest  == Forest(s.doc) /\ UniqueNames(s.doc) /\ LinkVariants(s.doc)
=============================================================================
