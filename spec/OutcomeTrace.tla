---------------------------- MODULE OutcomeTrace ----------------------------
(***************************************************************************)
(* P02 on arbitrary texts.  The library has three answers; which one is    *)
(* due follows from the well-formedness of the text and its root element.  *)
(* Each text is one behaviour: offered -> answered (and, when accepted,    *)
(* written).                                                               *)
(***************************************************************************)
EXTENDS Naturals, Sequences, Json, IOUtils, TLC

Cases == JsonDeserialize(IOEnv.TRACE_FILE).cases
VARIABLES t, ph

Outcome(c) == IF ~c.wf THEN "xml" ELSE IF c.root.ns = "svg" /\ c.root.n = "svg" THEN "ok" ELSE "nosvg"

Init == t \in 1..Len(Cases) /\ ph = "offered"
Answer ==
    /\ ph = "offered"
    /\ IF Cases[t].r = Outcome(Cases[t]) THEN ph' = IF Cases[t].r = "ok" THEN "parsed" ELSE "refused"
       ELSE ph' = "wrong" /\ PrintT("DIVERGE " \o ToJson([t |-> t, want |-> Outcome(Cases[t])]))
    /\ UNCHANGED t
Write ==
    /\ ph = "parsed"
    /\ IF Len(Cases[t].w) = 1 THEN ph' = "written"
       ELSE ph' = "wrong" /\ PrintT("DIVERGE " \o ToJson([t |-> t, want |-> "output"]))
    /\ UNCHANGED t
Spec == Init /\ [][Answer \/ Write]_<<t, ph>>
=============================================================================
