--------------------------- MODULE TermSetsModel ---------------------------
(* All reachable pairs of sets of terminals of one type (the types are     *)
(* independent), and what the fixpoint solver relies on.                   *)
EXTENDS TermSets
VARIABLE pair
Ops == {[k |-> "ins", ty |-> "A", lit |-> l] : l \in {"x", "y", "z", "*"}}
       \cup {[k |-> k] : k \in {"e", "-e", "clear", "uni", "unine", "swap"}}
Init == pair = [a |-> {}, b |-> {}]
Next == \E op \in Ops : pair' = Apply(pair, op)
Spec == Init /\ [][Next]_pair
Ok == /\ Valid(pair.a) /\ Valid(pair.b)
      (* the rendering determines the set *)
      /\ (Repr(pair.a) = Repr(pair.b)) = (pair.a = pair.b)
      /\ (pair.a \cap pair.b # {}) = (Repr(pair.a \cap pair.b) # {})
      /\ Valid(pair.a \cap pair.b)
=============================================================================
