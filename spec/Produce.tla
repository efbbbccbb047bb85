------------------------------ MODULE Produce ------------------------------
(***************************************************************************)
(* Predictive parsing with error recovery, construct by construct: the     *)
(* state of a parse and its transitions, as one big step per construct.    *)
(*                                                                         *)
(* Input X: [w, off, len, T, n, fetch] - characters with their byte        *)
(* offsets, the tokens the parser sees (T[j] = [ty, lo, hi, pr]), and the  *)
(* lexer requests they came from.                                          *)
(* State s: [c, f, sem] - tokens consumed, tokens requested so far, and    *)
(* the semantic marks applied (lo, hi, types, tokens consumed then).       *)
(* Result: [st, t, e, s] - "S" success, "R" recovered (tree and errors),   *)
(* "P" failed (errors only).                                               *)
(***************************************************************************)
EXTENDS Syntax, Lexing

ReadInput(lex, w, off) ==
  LET F  == LexAll(lex, w)
      IsTok(j) == F[j].tok # <<>> /\ F[j].tok[1] \notin Ran(lex.ext)
      J  == SelectSeq([j \in DOMAIN F |-> j], IsTok)
  IN [w |-> w, off |-> off, len |-> off[Len(off)], fetch |-> F, src |-> J, n |-> Len(J),
      T |-> [j \in DOMAIN J |->
               LET k == F[J[j]].tok IN
               [ty |-> k[1], lo |-> off[k[2]], hi |-> off[k[3]],
                pr |-> ProbeOf(lex, k[1], Text(w, k[2], k[3]))]]]

Max(a, b) == IF a > b THEN a ELSE b
Start == [c |-> 0, f |-> 0, sem |-> <<>>]
Peek(s) == [s EXCEPT !.f = Max(@, s.c + 1)]
AtEnd(X, s) == s.c >= X.n
Look(X, s) == IF AtEnd(X, s) THEN Eof ELSE X.T[s.c + 1].pr
LookTy(X, s) == IF AtEnd(X, s) THEN Eof ELSE X.T[s.c + 1].ty
CurLo(X, s) == IF AtEnd(X, s) THEN X.len ELSE X.T[s.c + 1].lo
CurHi(X, s) == IF AtEnd(X, s) THEN X.len ELSE X.T[s.c + 1].hi
Here(X, s) == IF s.c = 0 THEN 0 ELSE X.T[s.c].hi
Consume(X, s) == IF AtEnd(X, s) THEN Peek(s) ELSE [Peek(s) EXCEPT !.c = @ + 1]

Err(k, lo, hi, exp) == [k |-> k, lo |-> lo, hi |-> hi, exp |-> exp]
Expecting(X, s, exp) == Err("expecting", CurLo(X, s), CurHi(X, s), exp)
Tree(k, lo, hi, v, ch) == [k |-> k, lo |-> lo, hi |-> hi, v |-> v, ch |-> ch]
NoTree == Tree("none", 0, 0, "", <<>>)
Good(t, e, s) == [st |-> IF e = <<>> THEN "S" ELSE "R", t |-> t, e |-> e, s |-> s]
Bad(e, s) == [st |-> "P", t |-> NoTree, e |-> e, s |-> s]

(* FIRST with the empty marker, as reported in errors and asked at the end *)
FirstSet(M, k) == M.F[k] \cup (IF k \in M.N THEN {"<e>"} ELSE {})
InFirst(M, k, a) == IF a = Eof THEN k \in M.N ELSE a \in M.F[k]
InFollow(M, k, a) == a \in M.Fo[k]

(* The text between two byte positions; conversion of a text to a number.  *)
SubText(X, lo, hi) ==
  LET S == {j \in DOMAIN X.w : X.off[j] >= lo /\ X.off[j] < hi}
  IN IF S = {} THEN <<>> ELSE SubSeq(X.w, MinOf(S), MaxOf(S))
RECURSIVE Join(_)
Join(cs) == IF cs = <<>> THEN "" ELSE Head(cs) \o Join(Tail(cs))
Digits == <<"0", "1", "2", "3", "4", "5", "6", "7", "8", "9">>
DigitVal(c) == (CHOOSE d \in 1..10 : Digits[d] = c) - 1
RECURSIVE StripZeros(_), DigitsLeq(_, _)
StripZeros(cs) == IF Len(cs) > 1 /\ cs[1] = "0" THEN StripZeros(Tail(cs)) ELSE cs
DigitsLeq(a, b) ==
  \/ a = <<>>
  \/ DigitVal(a[1]) < DigitVal(b[1])
  \/ DigitVal(a[1]) = DigitVal(b[1]) /\ DigitsLeq(Tail(a), Tail(b))
MaxU32 == <<"4", "2", "9", "4", "9", "6", "7", "2", "9", "5">>
Number(cs0) ==
  LET cs == IF Len(cs0) > 1 /\ cs0[1] = "+" THEN Tail(cs0) ELSE cs0
  IN IF cs = <<>> \/ \E j \in DOMAIN cs : cs[j] \notin Ran(Digits) THEN "err"
     ELSE LET d == StripZeros(cs)
          IN IF Len(d) < 10 \/ (Len(d) = 10 /\ DigitsLeq(d, MaxU32)) THEN "ok:" \o Join(d) ELSE "err"

(* Giving up on a part: its errors before the last are kept, the last one  *)
(* becomes the report of the failure, or stretches the one there is.       *)
(* pan: <<>> or <<error>>.                                                 *)
Stretch(pan, hi) == <<[pan[1] EXCEPT !.hi = hi]>>
Failed(pan, e, errs) ==
  IF e = <<>> THEN [p |-> pan, e |-> errs]
  ELSE LET l == e[Len(e)] IN
       IF pan = <<>> THEN [p |-> <<l>>, e |-> errs \o SubSeq(e, 1, Len(e) - 1)]
       ELSE [p |-> Stretch(pan, l.hi), e |-> errs]

Mark(s, t, types) ==
  IF types = <<>> THEN s
  ELSE [s EXCEPT !.sem = Append(@, [lo |-> t.lo, hi |-> t.hi, types |-> Ran(types), c |-> s.c])]

-----------------------------------------------------------------------------
RECURSIVE Produce(_, _, _, _), Items(_, _, _, _, _, _, _), PlusIter(_, _, _, _, _, _, _),
          LoopIter(_, _, _, _, _, _, _), LoopSkip(_, _, _, _, _),
          SplitIter(_, _, _, _, _, _, _), SplitItem(_, _, _, _, _, _, _, _, _),
          PunctIter(_, _, _, _, _, _, _), PunctItem(_, _, _, _, _, _, _, _),
          TailIter(_, _, _, _, _, _)

(* A terminal *)
Token(M, X, i, s0) ==
  LET nd == Nodes[i]
      s  == Peek(s0)
      exp == TermOf(M.lex, nd)
      ins == Good(Tree("tok", Here(X, s), Here(X, s), nd.ty, <<>>), <<Expecting(X, s, exp)>>, s)
      here == Good(Tree("tok", CurLo(X, s), CurHi(X, s), nd.ty, <<>>), <<>>, Consume(X, s))
  IN IF nd.lit = "" THEN
       IF LookTy(X, s) = nd.ty THEN here ELSE Bad(<<Expecting(X, s, exp)>>, s)
     ELSE IF Look(X, s) \in exp THEN here
     ELSE IF InFollow(M, M.key[i], Look(X, s)) THEN ins
     ELSE IF AtEnd(X, s) THEN Bad(<<Err("eof", X.len, X.len, {})>>, s)
     ELSE Bad(<<Expecting(X, s, exp)>>, s)

(* An optional part: inner gives the production that decides and the step  *)
Optional(M, X, s0, k, r(_), wrap(_, _, _)) ==
  LET s == Peek(s0)
      none(q) == wrap(Here(X, q), Here(X, q), <<>>)
  IN IF AtEnd(X, s) \/ ~InFirst(M, k, Look(X, s)) THEN Good(none(s), <<>>, s)
     ELSE LET x == r(s) IN
          IF x.st = "P" THEN Good(none(x.s), x.e, x.s)
          ELSE Good(wrap(x.t.lo, x.t.hi, <<x.t>>), x.e, x.s)

PlusIter(M, X, k, i, acc, errs, s0) ==
  LET s == Peek(s0) IN
  IF AtEnd(X, s) \/ ~InFirst(M, k, Look(X, s)) THEN [acc |-> acc, e |-> errs, s |-> s]
  ELSE LET x == Produce(M, X, i, s) IN
       IF x.st = "P" THEN [acc |-> acc, e |-> errs \o x.e, s |-> x.s]
       ELSE PlusIter(M, X, k, i, Append(acc, x.t), errs \o x.e, x.s)

OneOrMore(M, X, i, s) ==
  LET x == Produce(M, X, i, s) IN
  IF x.st = "P" THEN Bad(x.e, x.s)
  ELSE LET y == PlusIter(M, X, M.many[i], i, <<x.t>>, x.e, x.s)
       IN Good(Tree("vec", x.t.lo, y.acc[Len(y.acc)].hi, "", y.acc), y.e, y.s)

LoopSkip(M, X, k, s, hi) ==
  IF AtEnd(X, s) \/ InFirst(M, k, Look(X, s)) THEN [s |-> Peek(s), hi |-> hi]
  ELSE LoopSkip(M, X, k, Peek(Consume(X, s)), CurHi(X, s))
LoopIter(M, X, k, i, acc, errs, s0) ==
  LET s1 == Peek(s0) IN
  IF AtEnd(X, s1) THEN [acc |-> acc, e |-> errs, s |-> s1]
  ELSE LET skip == ~InFirst(M, k, Look(X, s1))
           q == IF skip THEN LoopSkip(M, X, k, s1, 0) ELSE [s |-> s1, hi |-> 0]
           e1 == IF skip THEN Append(errs, Err("tokens", CurLo(X, s1), q.hi, {})) ELSE errs
       IN IF AtEnd(X, q.s) THEN [acc |-> acc, e |-> e1, s |-> q.s]
          ELSE LET x == Produce(M, X, i, q.s)
                   a2 == IF x.st = "P" THEN acc ELSE Append(acc, x.t)
                   s2 == Peek(x.s)
               IN IF CurLo(X, s2) = CurLo(X, q.s)
                  THEN [acc |-> a2, e |-> Append(e1 \o x.e, Err("noadvance", CurLo(X, s2), CurHi(X, s2), {})), s |-> s2]
                  ELSE LoopIter(M, X, k, i, a2, e1 \o x.e, s2)

(* Separated list, T (P T)*.  i: its node, a: [t, p, e] so far.            *)
SplitEnd(a, errs, s) == [a |-> a, e |-> errs, s |-> s]
SplitIter(M, X, i, kt, kp, a, s0) ==
  LET s == Peek(s0)  l == Look(X, s) IN
  IF AtEnd(X, s) THEN [a |-> a, s |-> s]
  ELSE IF ~InFirst(M, kp, l) /\ ~(kp \in M.N /\ InFirst(M, kt, l)) THEN [a |-> a, s |-> s]
  ELSE LET x == Produce(M, X, Nodes[i].ch[2], s) IN
       IF x.st = "P" THEN [a |-> [a EXCEPT !.e = @ \o x.e], s |-> x.s]
       ELSE SplitItem(M, X, i, kt, kp, [a EXCEPT !.e = @ \o x.e], x.t, <<>>, x.s)
SplitItem(M, X, i, kt, kp, a, p, pan, s0) ==
  LET s == Peek(s0)
      try == InFirst(M, kt, Look(X, s)) \/ kt \in M.N
      x == Produce(M, X, Nodes[i].ch[1], s)
      took(e) == [t |-> Append(a.t, x.t), p |-> Append(a.p, p), e |-> e]
  IN IF try /\ x.st # "P"
     THEN SplitIter(M, X, i, kt, kp, took(a.e \o x.e \o pan), x.s)
     ELSE LET fx == Failed(pan, x.e, a.e)
              s1 == IF try THEN Peek(x.s) ELSE s
              e1 == IF try THEN fx.e ELSE a.e
              p1 == IF try THEN fx.p
                    ELSE IF pan # <<>> THEN Stretch(pan, CurHi(X, s))
                    ELSE <<Expecting(X, s, FirstSet(M, kt))>>
              l1 == Look(X, s1)
              a1 == [a EXCEPT !.e = e1 \o p1]
          IN IF InFirst(M, kp, l1) THEN SplitIter(M, X, i, kt, kp, a1, s1)
             ELSE IF AtEnd(X, s1) \/ InFollow(M, M.key[i], l1) THEN [a |-> a1, s |-> s1]
             ELSE SplitItem(M, X, i, kt, kp, [a EXCEPT !.e = e1], p, p1, Consume(X, s1))

(* Punctuated list, T (P T)* P?.                                           *)
PunctIter(M, X, i, kt, kp, a, s0) ==
  LET s == Peek(s0) IN
  IF AtEnd(X, s) \/ ~InFirst(M, kp, Look(X, s)) THEN [a |-> a, s |-> s]
  ELSE LET x == Produce(M, X, Nodes[i].ch[2], s) IN
       IF x.st = "P" THEN [a |-> [a EXCEPT !.e = @ \o x.e], s |-> x.s]
       ELSE PunctItem(M, X, i, kt, kp, [a EXCEPT !.p = Append(@, x.t), !.e = @ \o x.e], <<>>, x.s)
PunctItem(M, X, i, kt, kp, a, pan, s0) ==
  LET s == Peek(s0)
      l == Look(X, s)
      done == [a EXCEPT !.e = @ \o pan]
      try == InFirst(M, kt, l)
      x == Produce(M, X, Nodes[i].ch[1], s)
  IN IF AtEnd(X, s) THEN [a |-> done, s |-> s]
     ELSE IF ~try /\ InFollow(M, M.key[i], l) THEN [a |-> done, s |-> s]
     ELSE IF try /\ x.st # "P"
     THEN PunctIter(M, X, i, kt, kp, [a EXCEPT !.t = Append(@, x.t), !.e = @ \o pan \o x.e], x.s)
     ELSE LET fx == Failed(pan, x.e, a.e)
              s1 == IF try THEN Peek(x.s) ELSE s
              e1 == IF try THEN fx.e ELSE a.e
              p1 == IF try THEN fx.p
                    ELSE IF pan # <<>> THEN Stretch(pan, CurHi(X, s))
                    ELSE <<Expecting(X, s, (M.Fo[M.key[i]] \ {Eof}) \cup M.F[kt])>>
              l1 == Look(X, s1)
              a1 == [a EXCEPT !.e = e1 \o p1]
          IN IF InFirst(M, kp, l1) THEN PunctIter(M, X, i, kt, kp, a1, s1)
             ELSE IF AtEnd(X, s1) \/ InFollow(M, M.key[i], l1) THEN [a |-> a1, s |-> s1]
             ELSE PunctItem(M, X, i, kt, kp, [a EXCEPT !.e = e1], p1, Consume(X, s1))

(* The terminator of a recovery construct.                                 *)
TailIter(M, X, i, pan, errs, s0) ==
  LET s == Peek(s0)
      j == Nodes[i].ch[2]
      k == M.key[j]
      try == InFirst(M, k, Look(X, s)) \/ k \in M.N
      x == Produce(M, X, j, s)
      fx == Failed(pan, x.e, errs)
  IN IF AtEnd(X, s) THEN
       IF k \in M.N THEN
         IF x.st # "P" THEN [t |-> <<x.t>>, e |-> errs \o x.e \o pan, s |-> x.s]
         ELSE [t |-> <<>>, e |-> fx.e \o fx.p, s |-> x.s]
       ELSE [t |-> <<>>, s |-> s,
             e |-> errs \o (IF pan = <<>> THEN <<Expecting(X, s, FirstSet(M, k))>> ELSE pan)]
     ELSE IF try /\ x.st # "P" THEN [t |-> <<x.t>>, e |-> errs \o x.e \o pan, s |-> x.s]
     ELSE LET s1 == IF try THEN Peek(x.s) ELSE s
              e1 == IF try THEN fx.e ELSE errs
              p0 == IF try THEN fx.p ELSE pan
              p1 == IF p0 # <<>> THEN Stretch(p0, CurHi(X, s1))
                    ELSE <<Expecting(X, s1, FirstSet(M, k))>>
          IN TailIter(M, X, i, p1, e1, Consume(X, s1))

(* Fields in sequence: stops at the first that fails.                      *)
Items(M, X, ch, j, acc, errs, s) ==
  IF j > Len(ch) THEN [ok |-> TRUE, acc |-> acc, e |-> errs, s |-> s]
  ELSE LET x == Produce(M, X, ch[j], s) IN
       IF x.st = "P" THEN [ok |-> FALSE, acc |-> acc, e |-> errs \o x.e, s |-> x.s]
       ELSE Items(M, X, ch, j + 1, Append(acc, x.t), errs \o x.e, x.s)

RECURSIVE MarkAll(_, _, _, _)
MarkAll(s, acc, sem, j) ==
  IF j > Len(sem) THEN s ELSE MarkAll(Mark(s, acc[j], sem[j]), acc, sem, j + 1)

Produce(M, X, i, s) ==
  LET nd == Nodes[i]
      sub(q) == Produce(M, X, nd.ch[1], q)
  IN
  CASE nd.k = "tok" -> Token(M, X, i, s)
    [] nd.k = "box" -> sub(s)
    [] nd.k = "opt" ->
         LET w(lo, hi, ch) == Tree("opt", lo, hi, "", ch)
         IN Optional(M, X, s, M.key[nd.ch[1]], sub, w)
    [] nd.k = "exists" ->
         LET w(lo, hi, ch) == Tree("exists", lo, hi, IF ch = <<>> THEN "0" ELSE "1", <<>>)
         IN Optional(M, X, s, M.key[nd.ch[1]], sub, w)
    [] nd.k = "plus" -> OneOrMore(M, X, nd.ch[1], s)
    [] nd.k = "star" ->
         LET w(lo, hi, ch) == Tree("vec", lo, hi, "", IF ch = <<>> THEN <<>> ELSE ch[1].ch)
             r(q) == OneOrMore(M, X, nd.ch[1], q)
         IN Optional(M, X, s, M.many[nd.ch[1]], r, w)
    [] nd.k = "loop" ->
         LET y == LoopIter(M, X, M.key[i], nd.ch[1], <<>>, <<>>, s)
         IN Good(IF y.acc = <<>> THEN Tree("loop", Here(X, y.s), Here(X, y.s), "", <<>>)
                 ELSE Tree("loop", y.acc[1].lo, y.acc[Len(y.acc)].hi, "", y.acc), y.e, y.s)
    [] nd.k \in {"split", "punct"} ->
         LET x == sub(s)
             a == [t |-> <<x.t>>, p |-> <<>>, e |-> x.e]
             kt == M.key[nd.ch[1]]  kp == M.key[nd.ch[2]]
             y == IF nd.k = "split" THEN SplitIter(M, X, i, kt, kp, a, x.s)
                  ELSE PunctIter(M, X, i, kt, kp, a, x.s)
             hi1 == y.a.t[Len(y.a.t)].hi
             hi == IF nd.k = "punct" /\ y.a.p # <<>> THEN Max(hi1, y.a.p[Len(y.a.p)].hi) ELSE hi1
         IN IF x.st = "P" THEN x
            ELSE Good(Tree(nd.k, x.t.lo, hi, ToString(Len(y.a.t)), y.a.t \o y.a.p), y.a.e, y.s)
    [] nd.k = "recover" ->
         LET q == Peek(s)
             kh == M.key[nd.ch[1]]
             try == InFirst(M, kh, Look(X, q)) \/ kh \in M.N
             x == sub(q)
             ok == try /\ x.st # "P"
             fx == Failed(<<>>, x.e, <<>>)
             s1 == IF try THEN x.s ELSE q
             e1 == IF ok THEN x.e ELSE IF try THEN fx.e ELSE <<>>
             p1 == IF ok THEN <<>> ELSE IF try THEN fx.p ELSE <<Expecting(X, q, FirstSet(M, kh))>>
             head == IF ok THEN Tree("opt", x.t.lo, x.t.hi, "", <<x.t>>)
                     ELSE Tree("opt", Here(X, s1), Here(X, s1), "", <<>>)
             y == TailIter(M, X, i, p1, e1, s1)
         IN IF y.t = <<>> THEN Bad(y.e, y.s)
            ELSE Good(Tree("recover", head.lo, y.t[1].hi, "", <<head, y.t[1]>>), y.e, y.s)
    [] nd.k \in {"quote", "num"} ->
         LET x == sub(s)
             txt == SubText(X, x.t.lo, x.t.hi)
         IN IF x.st = "P" THEN x
            ELSE Good(Tree(nd.k, x.t.lo, x.t.hi, IF nd.k = "quote" THEN Join(txt) ELSE Number(txt), <<>>), x.e, x.s)
    [] nd.k \in {"tuple", "struct"} ->
         LET y == Items(M, X, nd.ch, 1, <<>>, <<>>, s) IN
         IF ~y.ok THEN Bad(y.e, y.s)
         ELSE Good(Tree(nd.k, y.acc[1].lo, y.acc[Len(y.acc)].hi, nd.name, y.acc), y.e,
                   MarkAll(y.s, y.acc, nd.sem, 1))
    [] nd.k = "enum" ->
         LET q == Peek(s)
             alt == Chosen(M.P, M.N, M.F, M.key[i], Look(X, q))
         IN IF alt = 0 THEN Bad(<<Expecting(X, q, FirstSet(M, M.key[i]))>>, q)
            ELSE LET x == Produce(M, X, nd.ch[alt], q) IN
                 IF x.st = "P" THEN x
                 ELSE Good(Tree("enum", x.t.lo, x.t.hi, nd.name \o "." \o ToString(alt), <<x.t>>), x.e,
                           Mark(x.s, x.t, nd.sem[alt]))
=============================================================================
