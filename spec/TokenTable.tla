----------------------------- MODULE TokenTable -----------------------------
(***************************************************************************)
(* The stored tokens of a parse: a sequence of [ty, lo, hi, sem], in order *)
(* and without overlap, only growing at its end; its queries by position;  *)
(* and marking.                                                            *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

TRan(s) == {s[i] : i \in DOMAIN s}
Max0(S) == IF S = {} THEN 0 ELSE CHOOSE x \in S : \A y \in S : y <= x

(* Tokens of the table fully within a span; sharing a character with it.   *)
Inside(T, lo, hi) == {j \in DOMAIN T : lo <= T[j].lo /\ T[j].hi <= hi}
Overlapping(T, lo, hi) == {j \in DOMAIN T : \E x \in T[j].lo .. (T[j].hi - 1) : lo <= x /\ x < hi}
Exactly(T, lo, hi) == LET I == Inside(T, lo, hi) IN IF Cardinality(I) = 1 THEN I ELSE {}

(* The longest run of tokens satisfying ok that ends (begins) at pos.      *)
EndRun(T, pos, ok(_)) ==
  {j \in DOMAIN T : \E b \in DOMAIN T : T[b].hi = pos /\ j <= b /\ \A k \in j..b : ok(T[k])}
BeginRun(T, pos, ok(_)) ==
  {j \in DOMAIN T : \E b \in DOMAIN T : T[b].lo = pos /\ b <= j /\ \A k \in b..j : ok(T[k])}

Marked(T, S, types) == [j \in DOMAIN T |-> IF j \in S THEN [T[j] EXCEPT !.sem = @ \cup types] ELSE T[j]]
Types(t) == t.sem \cup {t.ty}

(* One operation on the table.                                             *)
Apply(T, op) ==
  CASE op.k = "push" -> Append(T, [ty |-> op.ty, lo |-> op.lo, hi |-> op.hi, sem |-> {}])
    [] op.k = "in"   -> Marked(T, Inside(T, op.lo, op.hi), TRan(op.types))
    [] op.k = "ov"   -> Marked(T, Overlapping(T, op.lo, op.hi), TRan(op.types))
    [] op.k = "end"  -> Marked(T, EndRun(T, op.lo, LAMBDA t : t.ty \in TRan(op.want)), TRan(op.types))
    [] op.k = "beg"  -> Marked(T, BeginRun(T, op.lo, LAMBDA t : TRan(op.want) \subseteq Types(t)), TRan(op.types))
    [] op.k = "all"  -> Marked(T, DOMAIN T, TRan(op.types))

-----------------------------------------------------------------------------
(* What is true of every well-formed table and span: the answers are runs, *)
(* inside implies overlapping, and what does not overlap lies before or    *)
(* behind.                                                                 *)
InOrder(T) == /\ \A j \in DOMAIN T : T[j].lo < T[j].hi
              /\ \A j, k \in DOMAIN T : j < k => T[j].hi <= T[k].lo
IsRun(S) == \A x, y \in S : x..y \subseteq S
Lemmas(T, lo, hi) ==
  /\ IsRun(Inside(T, lo, hi)) /\ IsRun(Overlapping(T, lo, hi))
  /\ Inside(T, lo, hi) \subseteq Overlapping(T, lo, hi)
  /\ \A j \in DOMAIN T \ Overlapping(T, lo, hi) : T[j].hi <= lo \/ T[j].lo >= hi \/ lo >= hi
  /\ \A j \in Overlapping(T, lo, hi) \ Inside(T, lo, hi) : j \in {Max0(Overlapping(T, lo, hi))}
       \/ \A k \in Overlapping(T, lo, hi) : j <= k
=============================================================================
