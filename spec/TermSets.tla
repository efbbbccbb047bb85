------------------------------ MODULE TermSets ------------------------------
(***************************************************************************)
(* Sets of terminals as sets.  A terminal is <<type, text>>; a terminal    *)
(* without fixed text stands for all texts of its type: the texts some     *)
(* terminal has, and every other text, "?" here.  "e" is the empty marker  *)
(* (or the end of input).                                                  *)
(* The state is a pair of sets [a, b]; every operation acts on a.          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

SRan(s) == {s[i] : i \in DOMAIN s}
Kinds == {"A", "B"}
Texts == {"x", "y", "z", "?"}
T(k, t) == k \o ":" \o t
AllOf(k) == {T(k, t) : t \in Texts}
E == "e"
Universe == {E} \cup UNION {AllOf(k) : k \in Kinds}
Is(k, S) == S \cap AllOf(k) = AllOf(k)
(* Only whole types contain the other texts.                               *)
Valid(S) == \A k \in Kinds : T(k, "?") \in S => Is(k, S)

Apply(s, op) ==
  CASE op.k = "ins"   -> [s EXCEPT !.a = @ \cup (IF op.lit = "*" THEN AllOf(op.ty) ELSE {T(op.ty, op.lit)})]
    [] op.k = "e"     -> [s EXCEPT !.a = @ \cup {E}]
    [] op.k = "-e"    -> [s EXCEPT !.a = @ \ {E}]
    [] op.k = "clear" -> [s EXCEPT !.a = {}]
    [] op.k = "uni"   -> [s EXCEPT !.a = @ \cup s.b]
    [] op.k = "unine" -> [s EXCEPT !.a = @ \cup (s.b \ {E})]
    [] op.k = "swap"  -> [a |-> s.b, b |-> s.a]

(* How sets are written: the empty marker, a type all of whose texts are   *)
(* members by its name, other texts in quotes.                             *)
Quote(t) == "\"" \o t \o "\""
Repr(S) ==
  (IF E \in S THEN {"<empty>"} ELSE {})
  \cup UNION {IF Is(k, S) THEN {k} ELSE {Quote(t) : t \in {t \in Texts : T(k, t) \in S}} : k \in Kinds}
Order == <<Quote("x"), Quote("y"), Quote("z"), "<empty>", "A", "B">>
RECURSIVE Commas(_)
Commas(ss) == IF ss = <<>> THEN "" ELSE IF Len(ss) = 1 THEN ss[1] ELSE ss[1] \o ", " \o Commas(Tail(ss))
InOrder(R) == SelectSeq(Order, LAMBDA x : x \in R)
Display(S) == "{" \o Commas(InOrder(Repr(S))) \o "}"
Items(S, k) == IF Is(k, S) THEN <<k \o ":*">>
               ELSE LET L == SelectSeq(<<"x", "y", "z">>, LAMBDA t : T(k, t) \in S)
                    IN [j \in DOMAIN L |-> k \o ":" \o Quote(L[j])]
Debug(S) == "{" \o Commas((IF E \in S THEN <<"<empty>">> ELSE <<>>) \o Items(S, "A") \o Items(S, "B")) \o "}"

-----------------------------------------------------------------------------
(* Sets of texts of one type: the same with a single type and no marker.   *)
TextApply(s, op) ==
  CASE op.k = "ins"   -> [s EXCEPT !.a = @ \cup {op.lit}]
    [] op.k = "any"   -> [s EXCEPT !.a = Texts]
    [] op.k = "clear" -> [s EXCEPT !.a = {}]
    [] op.k = "uni"   -> [s EXCEPT !.a = @ \cup s.b]
    [] op.k = "meet"  -> [s EXCEPT !.a = @ \cap s.b]
    [] op.k = "of"    -> [s EXCEPT !.a = SRan(op.lits)]
    [] op.k = "universe" -> [s EXCEPT !.a = Texts]
    [] op.k = "swap"  -> [a |-> s.b, b |-> s.a]
=============================================================================
