------------------------------- MODULE Session -------------------------------
(***************************************************************************)
(* A parser as its user sees it: calls, what they answer, and what the     *)
(* parser has recorded.  The state is [s, e]: the parsing state of Produce *)
(* (tokens consumed and requested, marks) and the errors recorded.         *)
(***************************************************************************)
EXTENDS Derive

-----------------------------------------------------------------------------
(* What has been requested from the lexer once f tokens have been asked    *)
(* for (n + 1: the end was seen).                                          *)
Seen(X, f) == IF f = 0 THEN 0 ELSE IF f > X.n THEN Len(X.fetch) ELSE X.src[f]
Fetched(X, f0, f1) == [j \in 1..(Seen(X, f1) - Seen(X, f0)) |-> X.fetch[Seen(X, f0) + j]]
Invalid(X, f0, f1) ==
  LET F == SelectSeq(Fetched(X, f0, f1), LAMBDA x : x.inv # <<>>)
  IN [j \in DOMAIN F |-> [lo |-> X.off[F[j].inv[1]], hi |-> X.off[F[j].inv[2]]]]
Extracted(lex, X, f0, f1) ==
  LET F == SelectSeq(Fetched(X, f0, f1), LAMBDA x : x.tok # <<>> /\ x.tok[1] \in Ran(lex.ext))
  IN [j \in DOMAIN F |-> [ty |-> F[j].tok[1], lo |-> X.off[F[j].tok[2]], hi |-> X.off[F[j].tok[3]]]]
CharErrors(X, f0, f1) ==
  LET I == Invalid(X, f0, f1) IN [j \in DOMAIN I |-> Err("chars", I[j].lo, I[j].hi, {})]

(* What a token is marked with. *)
SemOf(X, s, j) ==
  UNION {s.sem[o].types : o \in {o \in DOMAIN s.sem :
           j <= s.sem[o].c /\ s.sem[o].lo <= X.T[j].lo /\ X.T[j].hi <= s.sem[o].hi}}
TokensOf(X, s) ==
  [j \in 1..s.c |-> LET S == SemOf(X, s, j) IN
     [ty |-> X.T[j].ty, lo |-> X.T[j].lo, hi |-> X.T[j].hi, sem |-> S, types |-> S \cup {X.T[j].ty}]]

(* What an error says. *)
RECURSIVE Listing(_, _, _)
Listing(order, E, j) ==
  IF j > Len(order) THEN <<>>
  ELSE (IF order[j][2] \in E THEN <<order[j][1]>> ELSE <<>>) \o Listing(order, E, j + 1)
RECURSIVE Commas(_)
Commas(ss) == IF ss = <<>> THEN "" ELSE IF Len(ss) = 1 THEN ss[1] ELSE ss[1] \o ", " \o Commas(Tail(ss))
(* texts of a type all of whose texts are expected are not listed apart    *)
Names(lex, E) ==
  E \ {Fixed(l[1], l[2]) : l \in {l \in Ran(lex.lits) : Other(l[1]) \in E}}
Message(lex, X, e) ==
  CASE e.k = "chars" -> "Unexpected: " \o Join(SubText(X, e.lo, e.hi))
    [] e.k = "tokens" -> "Unexpected token(s): " \o Join(SubText(X, e.lo, e.hi))
    [] e.k = "expecting" -> "Expecting one of " \o Commas(Listing(lex.order, Names(lex, Ran(e.exp)), 1))
    [] e.k = "eof" -> "Unexpected end of file"
    [] OTHER -> e.msg

-----------------------------------------------------------------------------
(* The model's answer to one parse.                                        *)
Answer(M, X, s, errs) ==
  IF ~M.ll1 THEN [out |-> "gerr", t |-> NoTree, s |-> s, e |-> errs, own |-> <<>>]
  ELSE LET x == Produce(M, X, M.node, s) IN
       [out |-> IF x.st = "P" THEN "none" ELSE "tree", t |-> x.t, s |-> x.s, own |-> x.e,
        e |-> errs \o CharErrors(X, s.f, x.s.f) \o x.e]

ErrView(e) == [k |-> e.k, lo |-> e.lo, hi |-> e.hi, exp |-> e.exp]
GotErrs(r) == [j \in DOMAIN r.errs |-> Err(r.errs[j].k, r.errs[j].lo, r.errs[j].hi, Ran(r.errs[j].exp))]
GotToks(r) == [j \in DOMAIN r.toks |-> [r.toks[j] EXCEPT !.sem = Ran(@), !.types = Ran(@)]]
PlainToks(ts) == [j \in DOMAIN ts |-> [ty |-> ts[j].ty, lo |-> ts[j].lo, hi |-> ts[j].hi]]

-----------------------------------------------------------------------------
(* One call.  op.k is one of                                               *)
(*   peek src eat at gap rest eoferr       (no arguments)                  *)
(*   ty   (op.ty)          expect a token of a type                        *)
(*   lit  (op.ty op.lit op.follow)  expect a fixed token before a follower *)
(*   mark (op.lo op.hi op.types)    mark tokens                            *)
(*   parse (op.g)                   parse a root                           *)
(* Gives [s, e, r]; e: the errors the call added to the record.            *)
Plain(st) == [st |-> st, ty |-> "", lo |-> 0, hi |-> 0, txt |-> <<>>, own |-> <<>>, tree |-> NoTree]
TokAnswer(X, s) ==
  IF AtEnd(X, s) THEN Plain("none")
  ELSE [Plain("tok") EXCEPT !.ty = LookTy(X, s), !.lo = CurLo(X, s), !.hi = CurHi(X, s)]
SpanAnswer(lo, hi) == [Plain("span") EXCEPT !.lo = lo, !.hi = hi]
Call(lex, X, op, s0) ==
  LET s == Peek(s0)
      out(q, r) == [s |-> q, e |-> CharErrors(X, s0.f, q.f), r |-> r]
      here(st) == [Plain(st) EXCEPT !.ty = LookTy(X, s), !.lo = CurLo(X, s), !.hi = CurHi(X, s)]
      fail(e) == [Plain("P") EXCEPT !.own = <<e>>]
  IN
  CASE op.k = "peek"   -> out(s, TokAnswer(X, s))
    [] op.k = "src"    -> out(s, IF AtEnd(X, s) THEN Plain("none")
                                 ELSE [Plain("tok") EXCEPT !.ty = LookTy(X, s),
                                                           !.txt = SubText(X, CurLo(X, s), CurHi(X, s))])
    [] op.k = "eat"    -> out(Consume(X, s), TokAnswer(X, s))
    [] op.k = "at"     -> out(s, SpanAnswer(CurLo(X, s), CurHi(X, s)))
    [] op.k = "gap"    -> out(s0, SpanAnswer(Here(X, s0), Here(X, s0)))
    [] op.k = "rest"   -> out(s, [Plain("text") EXCEPT !.txt = SubText(X, CurLo(X, s), X.len)])
    [] op.k = "eoferr" -> out(s, [Plain("err") EXCEPT !.own = <<Err("eof", CurLo(X, s), CurHi(X, s), {})>>])
    [] op.k = "ty"     -> IF LookTy(X, s) = op.ty THEN out(Consume(X, s), here("S"))
                          ELSE out(s, fail(Expecting(X, s, AllOf(lex, op.ty))))
    [] op.k = "lit"    ->
         LET want == Fixed(op.ty, op.lit)
             follow == UNION {IF y[1] = Eof THEN {Eof} ELSE IF y[2] = "" THEN AllOf(lex, y[1]) ELSE {Fixed(y[1], y[2])}
                              : y \in Ran(op.follow)}
         IN IF Look(X, s) = want THEN out(Consume(X, s), here("S"))
            ELSE IF Look(X, s) \in follow
            THEN out(s, [Plain("R") EXCEPT !.ty = op.ty, !.lo = Here(X, s), !.hi = Here(X, s),
                                           !.own = <<Expecting(X, s, {want})>>])
            ELSE IF AtEnd(X, s) THEN out(s, fail(Err("eof", X.len, X.len, {})))
            ELSE out(s, fail(Expecting(X, s, {want})))
    [] op.k = "mark"   -> [s |-> Mark(s0, [lo |-> op.lo, hi |-> op.hi], op.types), e |-> <<>>, r |-> Plain("")]
    [] op.k = "parse"  ->
         LET M == Meta[op.g]
             a == Answer(M, X, s0, <<>>)
         IN [s |-> a.s, e |-> a.e, r |-> [Plain(a.out) EXCEPT !.tree = a.t]]

-----------------------------------------------------------------------------
(* What must hold of the record after any history (C22): the tokens        *)
(* consumed are the first ordinary tokens of the text, in order, each once;*)
(* what was extracted or skipped lies before the next ordinary token, and  *)
(* everything of it before the tokens consumed is recorded.                *)
Increasing(ss) == \A j, k \in DOMAIN ss : j < k => ss[j].hi <= ss[k].lo
Ordinary(lex, X) == SelectSeq([j \in DOMAIN X.fetch |-> X.fetch[j]],
                              LAMBDA x : x.tok # <<>> /\ x.tok[1] \notin Ran(lex.ext))
RecordOk(lex, X, toks, ext, inv) ==
  LET O == Ordinary(lex, X)
      n == Len(toks)
      bound == IF n + 1 <= Len(O) THEN X.off[O[n + 1].tok[2]] ELSE X.len
      before == IF n = 0 THEN 0 ELSE toks[n].lo
      AllExt == Extracted(lex, X, 0, X.n + 1)
      AllInv == Invalid(X, 0, X.n + 1)
  IN /\ n <= Len(O)
     /\ \A j \in 1..n : toks[j].ty = O[j].tok[1] /\ toks[j].lo = X.off[O[j].tok[2]] /\ toks[j].hi = X.off[O[j].tok[3]]
     /\ Increasing(toks) /\ Increasing(ext) /\ Increasing(inv)
     /\ ext = SubSeq(AllExt, 1, Len(ext)) /\ inv = SubSeq(AllInv, 1, Len(inv))
     /\ \A j \in DOMAIN AllExt : AllExt[j].hi <= before => j <= Len(ext)
     /\ \A j \in DOMAIN AllInv : AllInv[j].hi <= before => j <= Len(inv)
     /\ \A j \in DOMAIN ext : ext[j].hi <= bound
     /\ \A j \in DOMAIN inv : inv[j].hi <= bound
=============================================================================
