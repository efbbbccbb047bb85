---------------------------- MODULE ParserModel ----------------------------
(***************************************************************************)
(* The model of parsing checked against the meaning of grammars: for every *)
(* grammar of the table that is LL(1), TLC enumerates every sequence of    *)
(* tokens up to a length over its terminals (and a foreign one), and every *)
(* property of one parse must hold of what the model answers.  What is     *)
(* shown here is that the specification the implementation is replayed in  *)
(* has the properties; ParseCheck shows that the implementation follows it.*)
(*                                                                         *)
(* A behaviour reads its text token by token: the state is the grammar and *)
(* the tokens so far.                                                      *)
(***************************************************************************)
EXTENDS ParseProps, SequencesExt

MaxLen == atoi(IOEnv.MAXLEN)
Cap    == atoi(IOEnv.ALPHABET)

(* The terminals of a grammar that matter, one per terminal construct, and *)
(* one that cannot occur.                                                  *)
Alphabet(M) ==
  LET T == {nd \in {Nodes[i] : i \in M.nodes} : nd.k = "tok"}
      own == {IF nd.lit = "" THEN Other(nd.ty) ELSE Fixed(nd.ty, nd.lit) : nd \in T}
      all == UNION {AllOf(M.lex, M.lex.types[j]) : j \in {j \in DOMAIN M.lex.types : M.lex.types[j] \notin Ran(M.lex.ext)}}
      alien == all \ UNION {TermOf(M.lex, nd) : nd \in T}
      O == SetToSeq(own)
  IN TLCEval(Ran(SubSeq(O, 1, IF Len(O) < Cap THEN Len(O) ELSE Cap))
             \cup (IF alien = {} THEN {} ELSE {CHOOSE x \in alien : TRUE}))
TypeOf(M, pr) == CHOOSE ty \in Ran(M.lex.types) : pr \in AllOf(M.lex, ty)
Letters == TLCEval([g \in DOMAIN Roots |-> IF Meta[g].ll1 THEN TLCEval(Alphabet(Meta[g])) ELSE {}])

(* The text of a sequence of terminals: token j is at bytes 3j-2 .. 3j-1,  *)
(* with a gap behind it.                                                   *)
InputOf(M, ts) ==
  LET n == Len(ts) IN
  [w |-> [j \in 1..(3 * n) |-> "1"], off |-> [j \in 1..(3 * n + 1) |-> j - 1], len |-> 3 * n, n |-> n,
   T |-> [j \in 1..n |-> [ty |-> TypeOf(M, ts[j]), lo |-> 3 * j - 2, hi |-> 3 * j - 1, pr |-> ts[j]]],
   fetch |-> [j \in 1..(n + 1) |-> [inv |-> <<>>, to |-> 3 * j,
               tok |-> IF j > n THEN <<>> ELSE <<TypeOf(M, ts[j]), 3 * j - 1, 3 * j>>]],
   src |-> [j \in 1..n |-> j]]

AsSeq(S) == SetToSeq(S)
Observation(X, a) ==
  [out |-> a.out, tree |-> a.t, ext |-> <<>>, inv |-> <<>>,
   errs |-> [j \in DOMAIN a.e |-> [a.e[j] EXCEPT !.exp = AsSeq(@)]],
   toks |-> LET T == TokensOf(X, a.s) IN [j \in DOMAIN T |-> [T[j] EXCEPT !.sem = AsSeq(@), !.types = AsSeq(@)]]]

-----------------------------------------------------------------------------
VARIABLES gram, toks
modelVars == <<gram, toks>>
Init == gram \in {g \in DOMAIN Roots : Meta[g].ll1} /\ toks = <<>>
Next == /\ Len(toks) < MaxLen
        /\ \E a \in Letters[gram] : toks' = Append(toks, a)
        /\ UNCHANGED gram
Spec == Init /\ [][Next]_modelVars

AnswerOn(g, ts) == LET M == Meta[g] IN Answer(M, InputOf(M, ts), Start, <<>>)

(* The property asked for holds of the model's parse.                      *)
PropertyHolds ==
  LET M == Meta[gram]
      X == InputOf(M, toks)
  IN Declarative(M, X, Observation(X, Answer(M, X, Start, <<>>)), 0, 0) = {}

(* Consumption stays within the text and never goes beyond what was        *)
(* looked at; a token is looked at only right behind what was consumed.    *)
OneTokenAhead ==
  LET M == Meta[gram]
      a == AnswerOn(gram, toks)
  IN /\ a.s.c <= Len(toks) /\ a.s.c <= a.s.f /\ a.s.f <= a.s.c + 1
     /\ a.out = "tree" <=> a.t # NoTree

(* Reading is on line: if a parse ended without asking for the end of the  *)
(* text, more text changes nothing.                                        *)
OnLine ==
  [][LET a == AnswerOn(gram, toks) IN
     a.s.f <= Len(toks) => AnswerOn(gram, toks') = a]_modelVars

(* A tree that is complete and has no errors stays what it is: a sentence  *)
(* followed by something else parses to the same tree unless the next      *)
(* token continues it.                                                     *)
Deterministic ==
  [][LET a == AnswerOn(gram, toks)
         b == AnswerOn(gram, toks')
     IN (a.out = "tree" /\ a.own = <<>> /\ b.out = "tree" /\ b.own = <<>> /\ a.s.c = b.s.c) => a.t = b.t]_modelVars
=============================================================================
