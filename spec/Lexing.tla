------------------------------- MODULE Lexing -------------------------------
(***************************************************************************)
(* What lexing means: at every position the longest match of any rule is   *)
(* taken, ties go to the rule of higher priority; ignored stretches vanish; *)
(* where nothing matches, characters are skipped one by one and the whole  *)
(* stretch up to the next token (or the end) is reported as one.           *)
(*                                                                         *)
(* A text is a sequence of characters.  A pattern is one of                *)
(*   [k |-> "lit",   cs |-> <<characters>>]                                *)
(*   [k |-> "in",    cs |-> <<characters>>]   one character of a class     *)
(*   [k |-> "notin", cs |-> <<characters>>]   one character outside of it  *)
(*   [k |-> "cat" / "alt", ps |-> <<patterns>>]                            *)
(*   [k |-> "star" / "plus" / "opt", ps |-> <<pattern>>]                   *)
(* A lexicon has rules [ty, prio, p] (ty = "" for ignored text).           *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets

LRan(s) == {s[i] : i \in DOMAIN s}
MaxOf(S) == CHOOSE x \in S : \A y \in S : y <= x
MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y

(* The positions at which a match of p starting at i (1-based) can end;    *)
(* a match covers i..e-1.                                                  *)
RECURSIVE Ends(_, _, _), CatEnds(_, _, _, _), StarEnds(_, _, _)
Ends(w, p, i) ==
  CASE p.k = "lit" ->
         IF /\ i + Len(p.cs) - 1 <= Len(w)
            /\ \A j \in 1..Len(p.cs) : w[i + j - 1] = p.cs[j]
         THEN {i + Len(p.cs)} ELSE {}
    [] p.k = "in"    -> IF i <= Len(w) /\ w[i] \in LRan(p.cs) THEN {i + 1} ELSE {}
    [] p.k = "notin" -> IF i <= Len(w) /\ w[i] \notin LRan(p.cs) THEN {i + 1} ELSE {}
    [] p.k = "cat"   -> CatEnds(w, p.ps, 1, {i})
    [] p.k = "alt"   -> UNION {Ends(w, p.ps[j], i) : j \in DOMAIN p.ps}
    [] p.k = "opt"   -> {i} \cup Ends(w, p.ps[1], i)
    [] p.k = "star"  -> StarEnds(w, p.ps[1], {i})
    [] p.k = "plus"  -> StarEnds(w, p.ps[1], Ends(w, p.ps[1], i))
CatEnds(w, ps, j, S) ==
  IF j > Len(ps) \/ S = {} THEN S
  ELSE CatEnds(w, ps, j + 1, UNION {Ends(w, ps[j], i) : i \in S})
StarEnds(w, p, S) ==
  LET T == S \cup UNION {Ends(w, p, i) : i \in S}
  IN IF T = S THEN S ELSE StarEnds(w, p, T)

(* The winning match at i: [r |-> rule index, e |-> end], r = 0 if none.   *)
Best(lex, w, i) ==
  LET M == [r \in DOMAIN lex.rules |-> Ends(w, lex.rules[r].p, i) \ {i}]
      A == UNION {M[r] : r \in DOMAIN M}
  IN IF A = {} THEN [r |-> 0, e |-> i]
     ELSE LET e == MaxOf(A)
              C == {r \in DOMAIN M : e \in M[r]}
          IN [r |-> CHOOSE r \in C : \A q \in C : lex.rules[q].prio <= lex.rules[r].prio, e |-> e]

(* Is the winner unique (so that the lexicon has one meaning here)?        *)
Unambiguous(lex, w, i) ==
  LET b == Best(lex, w, i) IN
  b.r = 0 \/ \A q \in DOMAIN lex.rules :
     (q # b.r /\ b.e \in Ends(w, lex.rules[q].p, i)) => lex.rules[q].prio < lex.rules[b.r].prio

(* One request to the lexer from position i: skip ignored text and whatever *)
(* matches nothing, up to and including the next token.                    *)
(*   inv: <<>> or <<start, end>> of the stretch with unmatched characters  *)
(*   tok: <<>> or <<type, start, end>>;   to: where the next request starts *)
RECURSIVE Fetch(_, _, _, _)
Fetch(lex, w, i, inv) ==
  IF i > Len(w) THEN [inv |-> inv, tok |-> <<>>, to |-> i]
  ELSE LET b == Best(lex, w, i) IN
       IF b.r = 0
       THEN Fetch(lex, w, i + 1, IF inv = <<>> THEN <<i, i + 1>> ELSE <<inv[1], i + 1>>)
       ELSE IF lex.rules[b.r].ty = ""
       THEN Fetch(lex, w, b.e, inv)
       ELSE [inv |-> inv, tok |-> <<lex.rules[b.r].ty, i, b.e>>, to |-> b.e]

(* All requests until the end of the text, the last of which has no token. *)
RECURSIVE Fetches(_, _, _)
Fetches(lex, w, i) ==
  LET f == Fetch(lex, w, i, <<>>)
  IN IF f.tok = <<>> THEN <<f>> ELSE <<f>> \o Fetches(lex, w, f.to)
LexAll(lex, w) == Fetches(lex, w, 1)

(* Concatenation of characters to a string. *)
RECURSIVE Text(_, _, _)
Text(w, i, e) == IF i >= e THEN "" ELSE w[i] \o Text(w, i + 1, e)
=============================================================================
