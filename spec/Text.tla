-------------------------------- MODULE Text --------------------------------
(***************************************************************************)
(* Whitespace of one text unit: the text nodes below one element, in       *)
(* document order.  Each is [tx, sp, dp]: text, "default" or "preserve",   *)
(* and nesting depth.                                                      *)
(***************************************************************************)
EXTENDS Naturals, Sequences, SequencesExt, TLC

Ch(s, i)   == SubSeq(s, i, i)
IsSpace(c) == c \in {" ", "\t", "\n", "\r"}
First(s)   == IF s = "" THEN "" ELSE Ch(s, 1)
LastCh(s)  == IF s = "" THEN "" ELSE Ch(s, Len(s))
DropFirst(s) == SubSeq(s, 2, Len(s))
DropLast(s)  == SubSeq(s, 1, Len(s) - 1)

\* tabs and line breaks become spaces; runs of them collapse unless preserved
Collapse(s, sp) ==
    LET C[i \in 0..Len(s)] ==
            IF i = 0 THEN ""
            ELSE LET c == IF IsSpace(Ch(s, i)) THEN " " ELSE Ch(s, i)
                     b == C[i-1]
                 IN  IF sp = "default" /\ c = " " /\ LastCh(b) = " " THEN b ELSE b \o c
    IN  C[Len(s)]

\* a single text node
Single(n) ==
    IF n.sp = "preserve" THEN n.tx
    ELSE LET a == IF First(n.tx) = " " THEN DropFirst(n.tx) ELSE n.tx
         IN  IF LastCh(a) = " " THEN DropLast(a) ELSE a

\* Many text nodes: neighbours are processed in pairs (a, b); an empty a stands for the last
\* non-empty node before it.  us is the sequence of nodes, l the last non-empty one or 0.
RECURSIVE Pairs(_, _, _)
Pairs(us, i, l) ==
    IF i = Len(us) THEN us
    ELSE
    LET a  == IF us[i].tx = "" /\ l # 0 THEN l ELSE i
        b  == i + 1
        x  == us[a]
        y  == us[b]
        adjoin == LastCh(x.tx) = " " /\ First(y.tx) = " "
        \* one of two adjoining spaces goes: the one of the deeper node, else of the first one;
        \* a preserved one stays
        cutB == adjoin /\ y.sp = "default" /\ (us[i].dp < y.dp \/ x.sp = "preserve")
        cutA == adjoin /\ ~(us[i].dp < y.dp) /\ x.sp = "default" /\ y.sp = "default"
        x1 == IF cutA THEN DropLast(x.tx) ELSE x.tx
        y1 == IF cutB THEN DropFirst(y.tx) ELSE y.tx
        first == i = 1
        last  == i = Len(us) - 1
        \* leading space of the unit
        x2 == IF first /\ First(x.tx) = " " /\ x.sp = "default" /\ x1 # "" THEN DropFirst(x1) ELSE x1
        y2 == IF x2 = "" /\ l = 0 /\ y.sp = "default" /\ First(y1) = " " THEN DropFirst(y1) ELSE y1
        \* trailing space of the unit
        y3 == IF last /\ LastCh(y.tx) = " " /\ y2 # "" /\ y.sp = "default" THEN DropLast(y2) ELSE y2
        x3 == IF last /\ LastCh(x.tx) = " " /\ x.sp = "default" /\ x2 # "" /\ y3 = "" /\ LastCh(x2) = " "
              THEN DropLast(x2) ELSE x2
    IN  Pairs([us EXCEPT ![a].tx = x3, ![b].tx = y3], i + 1, IF x3 # "" THEN a ELSE l)

\* the texts of the unit after processing
Process(us) ==
    LET c == TLCEval([i \in 1..Len(us) |-> [us[i] EXCEPT !.tx = Collapse(us[i].tx, us[i].sp)]])
    IN  IF Len(c) = 0 THEN <<>>
        ELSE IF Len(c) = 1 THEN <<Single(c[1])>>
        ELSE LET r == Pairs(c, 1, 0) IN [i \in 1..Len(r) |-> r[i].tx]

------------------------------------------------------------------------------
(* What P07 demands *)

Concat(ss) == FoldLeft(LAMBDA a, b : a \o b, "", ss)

\* leading and trailing spaces removed, runs collapsed
Normalised(s) == Single([tx |-> Collapse(s, "default"), sp |-> "default", dp |-> 0])

AllDefault(us) == \A i \in 1..Len(us) : us[i].sp = "default"

\* everything default: reading the nodes in order gives the normalised text
DefaultOK(us) ==
    AllDefault(us) => Concat(Process(us)) = Normalised(Concat([i \in 1..Len(us) |-> us[i].tx]))

\* preserved nodes keep every character
PreserveOK(us) ==
    \A i \in 1..Len(us) : us[i].sp = "preserve" => Process(us)[i] = Collapse(us[i].tx, "preserve")

\* a default node only loses spaces
NonSpace(s) == LET N[i \in 0..Len(s)] == IF i = 0 THEN "" ELSE IF IsSpace(Ch(s, i)) THEN N[i-1] ELSE N[i-1] \o Ch(s, i)
               IN  N[Len(s)]
KeepsLetters(us) == \A i \in 1..Len(us) : NonSpace(Process(us)[i]) = NonSpace(us[i].tx)

\* doing it again, with the empty nodes gone, changes nothing
Remaining(us) ==
    LET p == Process(us) IN
    SelectSeq([i \in 1..Len(us) |-> [us[i] EXCEPT !.tx = p[i]]], LAMBDA n : n.tx # "")
Stable(us) ==
    LET r == Remaining(us) IN Process(r) = [i \in 1..Len(r) |-> r[i].tx]
=============================================================================
