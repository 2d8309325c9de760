------------------------------- MODULE MCText -------------------------------
(* All text units of at most N nodes over small texts, spaces and depths.  *)
EXTENDS Text, Json, TLC
CONSTANTS N, Texts, Spaces, Depths, Emit
VARIABLE unit
Node == [tx : Texts, sp : Spaces, dp : Depths]
Init == unit = <<>>
Next == Len(unit) < N /\ \E n \in Node : unit' = Append(unit, n)
Spec == Init /\ [][Next]_unit
InvDefault  == DefaultOK(unit)
InvPreserve == PreserveOK(unit)
InvLetters  == KeepsLetters(unit)
InvStable   == AllDefault(unit) => Stable(unit)
PrintUnit == ~Emit \/ unit = <<>> \/ PrintT("UNIT " \o ToJson([u |-> unit, t |-> Process(unit)]))
=============================================================================
