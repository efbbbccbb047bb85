------------------------------ MODULE TypeSets ------------------------------
(***************************************************************************)
(* Sets of token types and tables by token type, for a lexicon with n      *)
(* types, numbered 0..n-1 in declaration order.                            *)
(* State: two sets a, b and a table m with one entry per type.             *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

Fresh(n) == [a |-> {}, b |-> {}, m |-> [i \in 0..(n - 1) |-> 0]]
Apply(s, op) ==
  CASE op.k = "+" -> [s EXCEPT !.a = @ \cup {op.i}]
    [] op.k = "-" -> [s EXCEPT !.a = @ \ {op.i}]
    [] op.k = "b" -> [s EXCEPT !.a = @ \cup s.b]
    [] op.k = "s" -> [s EXCEPT !.a = s.b, !.b = s.a]
    [] op.k = "r" -> s
    [] op.k \in {"m", "z"} -> [s EXCEPT !.m[op.i] = op.v]

Sorted(S, n) == SelectSeq([i \in 1..n |-> i - 1], LAMBDA i : i \in S)
Name(i) == "V" \o ToString(i)
RECURSIVE Names(_)
Names(ss) == IF ss = <<>> THEN "" ELSE IF Len(ss) = 1 THEN Name(ss[1]) ELSE Name(ss[1]) \o ", " \o Names(Tail(ss))
=============================================================================
