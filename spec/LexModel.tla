------------------------------ MODULE LexModel ------------------------------
(***************************************************************************)
(* A lexer that reads its text one character at a time, and keeps of every *)
(* rule what is left of it (its derivative) and of the longest match so    *)
(* far where it ended.  TLC reads every text over a few characters with    *)
(* every lexicon of the table; at every moment what the machine has said,  *)
(* and would say if the text ended here, is what Lexing declares.          *)
(***************************************************************************)
EXTENDS Lexing, TLC, IOUtils, Json

Lexicons == TLCEval(ndJsonDeserialize(IOEnv.LEXICONS)[1].lexicons)
Alphabets == TLCEval(ndJsonDeserialize(IOEnv.ALPHABETS)[1].alphabets)
MaxLen == atoi(IOEnv.MAXLEN)

-----------------------------------------------------------------------------
(* Derivatives of patterns, simplified as they are made.                   *)
Never == [k |-> "alt", ps |-> <<>>]
Empty == [k |-> "lit", cs |-> <<>>]
RECURSIVE Nul(_)
Nul(p) ==
  CASE p.k = "lit" -> p.cs = <<>>
    [] p.k \in {"in", "notin"} -> FALSE
    [] p.k = "cat" -> \A j \in DOMAIN p.ps : Nul(p.ps[j])
    [] p.k = "alt" -> \E j \in DOMAIN p.ps : Nul(p.ps[j])
    [] p.k \in {"opt", "star"} -> TRUE
    [] p.k = "plus" -> Nul(p.ps[1])
MkAlt(S) == LET T == SelectSeq(S, LAMBDA q : q # Never) IN IF Len(T) = 1 THEN T[1] ELSE [k |-> "alt", ps |-> T]
MkCat(p, rest) ==
  IF p = Never THEN Never
  ELSE IF rest = <<>> THEN p
  ELSE IF p = Empty THEN (IF Len(rest) = 1 THEN rest[1] ELSE [k |-> "cat", ps |-> rest])
  ELSE [k |-> "cat", ps |-> <<p>> \o rest]
RECURSIVE Der(_, _), DerCat(_, _)
Der(p, a) ==
  CASE p.k = "lit" -> IF p.cs # <<>> /\ p.cs[1] = a THEN [k |-> "lit", cs |-> Tail(p.cs)] ELSE Never
    [] p.k = "in" -> IF a \in LRan(p.cs) THEN Empty ELSE Never
    [] p.k = "notin" -> IF a \notin LRan(p.cs) THEN Empty ELSE Never
    [] p.k = "cat" -> DerCat(p.ps, a)
    [] p.k = "alt" -> MkAlt([j \in DOMAIN p.ps |-> Der(p.ps[j], a)])
    [] p.k = "opt" -> Der(p.ps[1], a)
    [] p.k \in {"star", "plus"} -> MkCat(Der(p.ps[1], a), <<[k |-> "star", ps |-> p.ps]>>)
DerCat(ps, a) ==
  IF ps = <<>> THEN Never
  ELSE LET d == MkCat(Der(ps[1], a), Tail(ps)) IN
       IF Nul(ps[1]) THEN MkAlt(<<d, DerCat(Tail(ps), a)>>) ELSE d

-----------------------------------------------------------------------------
(* The machine: from: where the match it tries began; pos: the next        *)
(* character to read; left: what is left of each rule; best: the longest   *)
(* match so far; inv: the unlexable stretch not yet reported; said: the    *)
(* requests it has answered.                                               *)
Fresh(lex, i, inv, said) ==
  [from |-> i, pos |-> i, left |-> [r \in DOMAIN lex.rules |-> lex.rules[r].p], best |-> [r |-> 0, e |-> i], inv |-> inv, said |-> said]
Winner(lex, left) ==
  LET C == {r \in DOMAIN left : Nul(left[r])} IN
  IF C = {} THEN 0 ELSE CHOOSE r \in C : \A q \in C : lex.rules[q].prio <= lex.rules[r].prio
Feed(lex, m, a) ==
  LET l == [r \in DOMAIN m.left |-> Der(m.left[r], a)]
      b == Winner(lex, l)
  IN [m EXCEPT !.pos = @ + 1, !.left = l, !.best = IF b = 0 THEN @ ELSE [r |-> b, e |-> m.pos + 1]]
Dead(m) == \A r \in DOMAIN m.left : m.left[r] = Never
(* No rule can go on: the longest match is taken, or a character skipped.  *)
Settle(lex, m) ==
  IF m.best.r = 0
  THEN Fresh(lex, m.from + 1, IF m.inv = <<>> THEN <<m.from, m.from + 1>> ELSE <<m.inv[1], m.from + 1>>, m.said)
  ELSE IF lex.rules[m.best.r].ty = ""
  THEN Fresh(lex, m.best.e, m.inv, m.said)
  ELSE Fresh(lex, m.best.e, <<>>,
             Append(m.said, [inv |-> m.inv, tok |-> <<lex.rules[m.best.r].ty, m.from, m.best.e>>, to |-> m.best.e]))
(* Reads on until it needs more text.                                      *)
RECURSIVE Run(_, _, _)
Run(lex, m, w) ==
  IF Dead(m) THEN Run(lex, Settle(lex, m), w)
  ELSE IF m.pos > Len(w) THEN m
  ELSE Run(lex, Feed(lex, m, w[m.pos]), w)
(* The text ends here.                                                     *)
RECURSIVE Finish(_, _, _)
Finish(lex, m, w) ==
  IF m.from > Len(w) THEN Append(m.said, [inv |-> m.inv, tok |-> <<>>, to |-> m.from])
  ELSE Finish(lex, Run(lex, Settle(lex, m), w), w)

VARIABLES lexi, text, machine
lexVars == <<lexi, text, machine>>
Init == /\ lexi \in DOMAIN Lexicons
        /\ text = <<>>
        /\ machine = Fresh(Lexicons[lexi], 1, <<>>, <<>>)
Next == /\ Len(text) < MaxLen
        /\ \E a \in LRan(Alphabets[lexi]) :
             /\ text' = Append(text, a)
             /\ machine' = Run(Lexicons[lexi], machine, text')
        /\ UNCHANGED lexi
Spec == Init /\ [][Next]_lexVars

(* What it would say at the end of the text is what lexing means.          *)
SaysWhatIsDeclared == Finish(Lexicons[lexi], machine, text) = LexAll(Lexicons[lexi], text)
(* What it has said stays said and concerns text it has read.              *)
NeverTakesBack ==
  [][/\ Len(machine.said) <= Len(machine'.said)
     /\ SubSeq(machine'.said, 1, Len(machine.said)) = machine.said]_lexVars
StandsInText == machine.from <= machine.pos /\ machine.pos <= Len(text) + 1
=============================================================================
