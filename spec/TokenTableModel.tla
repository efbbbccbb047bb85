-------------------------- MODULE TokenTableModel --------------------------
(* Every table over a short text, grown and marked in every way: the       *)
(* lemmas of TokenTable, and that marking never touches anything else.     *)
EXTENDS TokenTable
CONSTANTS Width, MaxTokens
VARIABLES table, touched
None == [k |-> "none"]
Spans == (0..Width) \X (0..Width)
Grow ==
  /\ Len(table) < MaxTokens
  /\ \E lo \in 0..(Width - 1), hi \in 1..Width, ty \in {"A", "B"} :
       /\ lo < hi /\ (IF table = <<>> THEN TRUE ELSE table[Len(table)].hi <= lo)
       /\ table' = Apply(table, [k |-> "push", ty |-> ty, lo |-> lo, hi |-> hi])
       /\ touched' = {Len(table) + 1}
MarkSome ==
  \E k \in {"in", "ov"}, sp \in Spans :
    /\ table' = Apply(table, [k |-> k, lo |-> sp[1], hi |-> sp[2], types |-> <<"S">>])
    /\ touched' = IF k = "in" THEN Inside(table, sp[1], sp[2]) ELSE Overlapping(table, sp[1], sp[2])
Init == table = <<>> /\ touched = {}
Next == Grow \/ MarkSome
Spec == Init /\ [][Next]_<<table, touched>>
Ok == InOrder(table) /\ \A sp \in Spans : Lemmas(table, sp[1], sp[2])
Confined == [][/\ Len(table') \in {Len(table), Len(table) + 1}
               /\ \A j \in DOMAIN table : j \notin touched' => table'[j] = table[j]
               /\ \A j \in DOMAIN table : table'[j].lo = table[j].lo /\ table[j].sem \subseteq table'[j].sem]_<<table, touched>>
=============================================================================
