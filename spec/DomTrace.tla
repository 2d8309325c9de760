------------------------------ MODULE DomTrace ------------------------------
(***************************************************************************)
(* Trace validation: histories recorded from the real library must be      *)
(* behaviours of Dom.  One TLC state per recorded call.  A divergence is   *)
(* printed with the facets that differ, and that trace is abandoned.       *)
(***************************************************************************)
EXTENDS Dom, Reader, Json, IOUtils

Traces == JsonDeserialize(IOEnv.TRACE_FILE).traces

VARIABLES tr, i, doc, obs
vars == <<tr, i, doc, obs>>

View == <<tr, i>>

\* the root of a new document, as observed
RootView == [k |-> "root", tag |-> "@", id |-> "", tx |-> "", lv |-> TRUE, par |-> 0, fc |-> 0, lc |-> 0,
             ps |-> 0, ns |-> 0, kids |-> <<>>, at |-> <<>>, us |-> <<>>, uc |-> 0, iu |-> FALSE]

Init == /\ tr \in 1..Len(Traces)
        /\ i = 1
        /\ doc = EmptyDoc
        /\ obs = <<RootView>>

\* observed state after the event: the changed nodes are logged
Patch(o, diff) ==
    LET n == IF diff = <<>> THEN Len(o)
             ELSE LET m == Last(diff)[1] IN IF m > Len(o) THEN m ELSE Len(o)
        at(j) == {x \in 1..Len(diff) : diff[x][1] = j}
    IN  [j \in 1..n |-> IF at(j) # {} THEN diff[CHOOSE x \in at(j) : TRUE][2] ELSE o[j]]

\* Is the node's observed record what the specification says?
SameTree(v, o) == v.par = o.par /\ v.fc = o.fc /\ v.lc = o.lc /\ v.ps = o.ps /\ v.ns = o.ns /\ v.kids = o.kids
\* parent and children as they should be, but the direct pointers do not agree with them
WrongEnds(v, o) == v.par = o.par /\ v.kids = o.kids /\ ~SameTree(v, o)
SameData(v, o) == v.k = o.k /\ v.tag = o.tag /\ v.id = o.id /\ v.tx = o.tx /\ v.lv = o.lv
SameAttrs(v, o) == v.at = o.at
SameLinks(v, o) == SameBag(v.us, o.us) /\ o.uc = Len(o.us) /\ (o.iu <=> o.us # <<>>)

\* D04 evaluated on what was observed alone
ObsSym(o) ==
    LET L == UNION {{<<m, j>> : j \in {j \in 1..Len(o[m].at) : o[m].at[j].k \in LinkKinds}} : m \in 1..Len(o)}
    IN  /\ \A n \in 1..Len(o) : \A m \in Range_(o[n].us) \cup {p[1] : p \in {q \in L : o[q[1]].at[q[2]].to = n}} :
              Count(o[n].us, m) = Cardinality({p \in L : p[1] = m /\ o[m].at[p[2]].to = n})
        /\ \A p \in L : o[p[1]].at[p[2]].to \in 1..Len(o)

\* what differs, as pairs of a facet and a node
Facets(d, o) ==
    IF Len(o) # Len(d.nd) THEN {<<"count", 0>>}
    ELSE LET vs == Views(d) IN UNION {
         (IF ~SameTree(vs[n], o[n])  THEN {<<"tree", n>>} ELSE {})
    \cup (IF WrongEnds(vs[n], o[n]) THEN {<<"ends", n>>} ELSE {})
    \cup (IF ~SameData(vs[n], o[n])  THEN {<<"data", n>>} ELSE {})
    \cup (IF ~SameAttrs(vs[n], o[n]) THEN {<<"attrs", n>>} ELSE {})
    \cup (IF ~SameLinks(vs[n], o[n]) THEN {<<"links", n>>} ELSE {}) : n \in 1..Len(o)}

\* facets of a query: the names of the wrong answers
Wrong(exp, got) ==
    IF "panic" \in DOMAIN got THEN {<<"panic", 0>>}
    ELSE {<<f, 0>> : f \in {f \in DOMAIN exp : exp[f] # got[f]}}

Report(e, bad, want) ==
    PrintT("DIVERGE " \o ToJson([t |-> tr, i |-> i, op |-> e.op, bad |-> bad, want |-> want]))

Queries == {"query", "access", "show", "write"}

Stop == i' = 0 /\ UNCHANGED <<tr, doc, obs>>

Event ==
    /\ i > 0 /\ i <= Len(Traces[tr])
    /\ LET e == Traces[tr][i] IN
       IF e.op \in Queries
       THEN LET exp == CASE e.op = "query"  -> QueryAnswer(doc, e.x, e.t)
                         [] e.op = "access" -> AccessAnswer(doc, e.x, e.s)
                         [] e.op = "show"   -> ShowAnswer(doc, e.x, IF "panic" \in DOMAIN e.q THEN <<>> ELSE e.q.us)
                         [] e.op = "write"  -> WriteAnswer(IF "panic" \in DOMAIN e.q THEN doc ELSE Spelled(doc, e.q.vs), e.s)
                wrong == Wrong(exp, e.q)
                         \cup (IF e.op # "write" \/ "panic" \in DOMAIN e.q THEN {}
                               ELSE IF ReadsBack(Spelled(doc, e.q.vs), e.s, e.q.wf, e.q.rd) THEN {} ELSE {<<"read", 0>>}) \cup (IF e.d # <<>> THEN {<<"changed", 0>>} ELSE {})
            IN  IF wrong = {} THEN i' = i + 1 /\ UNCHANGED <<tr, doc, obs>>
                ELSE Report(e, wrong, "") /\ Stop
       ELSE IF e.op = "free"
       THEN IF e.r = "0" THEN i' = i + 1 /\ UNCHANGED <<tr, doc, obs>>
            ELSE Report(e, {<<"leak", 0>>}, "0") /\ Stop
       ELSE LET s   == Step(doc, e)
                o   == IF e.r = "unreadable" THEN obs ELSE Patch(obs, e.d)
                sym == IF e.r = "unreadable" \/ e.op = "drop" THEN TRUE ELSE ObsSym(o)
                bad == (IF e.r = "unreadable" THEN {<<"result", 0>>} ELSE Facets(s.d, o))
                       \cup (IF e.r # s.r THEN {<<"result", 0>>} ELSE {})
                       \cup (IF sym THEN {} ELSE {<<"sym", 0>>})
            IN  IF bad = {}
                THEN /\ doc' = s.d /\ obs' = o /\ i' = i + 1 /\ UNCHANGED tr
                ELSE Report(e, bad, s.r) /\ Stop

Next == Event
Spec == Init /\ [][Next]_vars

\* The invariants of Dom hold in every state of every validated history.
Inv == Forest(doc) /\ LinkSymmetry(doc) /\ UniqueNames(doc) /\ LinkVariants(doc) /\ DeadIsGone(doc)
=============================================================================
