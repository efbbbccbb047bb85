------------------------------- MODULE Derive -------------------------------
(***************************************************************************)
(* What it means to be a sentence, a prefix of a sentence and a derivation *)
(* tree - stated on the constructs themselves, without any parsing         *)
(* strategy, production keys or lookahead.                                 *)
(*                                                                         *)
(* Positions count tokens: a construct derives tokens p+1..e.              *)
(***************************************************************************)
EXTENDS Produce

(* A loop takes items up to the end of the input.  It is one or more items *)
(* in the grammar, but an empty one is accepted where it is parsed at all: *)
(* sentences are counted without it when asking whether all are parsed,    *)
(* with it when asking whether what was parsed is one.                     *)
EmptyLoop == IOEnv.PID # "C08"

RECURSIVE DEnds(_, _, _, _), DSeq(_, _, _, _, _), DStar(_, _, _, _)
(* The positions at which a construct that begins behind p can end.        *)
DEnds(M, X, i, p) ==
  LET nd == Nodes[i]
      c(j) == nd.ch[j]
      then(S, j) == UNION {DEnds(M, X, c(j), q) : q \in S}
  IN
  CASE nd.k = "tok" -> IF p < X.n /\ X.T[p + 1].pr \in TermOf(M.lex, nd) THEN {p + 1} ELSE {}
    [] nd.k \in {"box", "quote", "num"} -> DEnds(M, X, c(1), p)
    [] nd.k \in {"opt", "exists"} -> {p} \cup DEnds(M, X, c(1), p)
    [] nd.k = "star" -> DStar(M, X, <<c(1)>>, {p})
    [] nd.k = "loop" -> DStar(M, X, <<c(1)>>, IF EmptyLoop THEN {p} ELSE DEnds(M, X, c(1), p)) \cap {X.n}
    [] nd.k = "plus" -> DStar(M, X, <<c(1)>>, DEnds(M, X, c(1), p))
    [] nd.k = "split" -> DStar(M, X, <<c(2), c(1)>>, DEnds(M, X, c(1), p))
    [] nd.k = "punct" -> LET S == DStar(M, X, <<c(2), c(1)>>, DEnds(M, X, c(1), p))
                         IN S \cup then(S, 2)
    [] nd.k \in {"tuple", "struct", "recover"} -> DSeq(M, X, nd.ch, 1, {p})
    [] nd.k = "enum" -> UNION {DEnds(M, X, c(j), p) : j \in DOMAIN nd.ch}
DSeq(M, X, ch, j, S) ==
  IF j > Len(ch) \/ S = {} THEN S ELSE DSeq(M, X, ch, j + 1, UNION {DEnds(M, X, ch[j], q) : q \in S})
DStar(M, X, ch, S) ==
  LET U == S \cup UNION {DSeq(M, X, ch, 1, {q}) : q \in S} IN IF U = S THEN S ELSE DStar(M, X, ch, U)

(* The positions q such that tokens p+1..q are the beginning of something  *)
(* the construct derives.  Every construct of the grammars used derives    *)
(* some finite string.                                                     *)
RECURSIVE Begins(_, _, _, _), BSeq(_, _, _, _, _)
Begins(M, X, i, p) ==
  LET nd == Nodes[i]
      c(j) == nd.ch[j]
      all(S, ch) == S \cup UNION {BSeq(M, X, ch, 1, {q}) : q \in S}
  IN
  CASE nd.k = "tok" -> {p} \cup DEnds(M, X, i, p)
    [] nd.k \in {"box", "quote", "num", "opt", "exists"} -> {p} \cup Begins(M, X, c(1), p)
    [] nd.k \in {"star", "loop"} -> all(DEnds(M, X, i, p), <<c(1)>>)
    [] nd.k = "plus" -> Begins(M, X, c(1), p) \cup all(DEnds(M, X, i, p), <<c(1)>>)
    [] nd.k = "split" -> Begins(M, X, c(1), p) \cup all(DEnds(M, X, i, p), <<c(2), c(1)>>)
    [] nd.k = "punct" -> Begins(M, X, c(1), p)
         \cup all(DStar(M, X, <<c(2), c(1)>>, DEnds(M, X, c(1), p)), <<c(2), c(1)>>)
    [] nd.k \in {"tuple", "struct", "recover"} -> BSeq(M, X, nd.ch, 1, {p})
    [] nd.k = "enum" -> {p} \cup UNION {Begins(M, X, c(j), p) : j \in DOMAIN nd.ch}
BSeq(M, X, ch, j, S) ==
  IF j > Len(ch) \/ S = {} THEN S
  ELSE UNION {Begins(M, X, ch[j], q) : q \in S}
         \cup BSeq(M, X, ch, j + 1, UNION {DEnds(M, X, ch[j], q) : q \in S})

(* How far the tokens from p on can be extended to a sentence.             *)
Farthest(M, X, p) == MaxOf(Begins(M, X, M.node, p))
Sentence(M, X, p, q) == q \in DEnds(M, X, M.node, p)

-----------------------------------------------------------------------------
(* Is t the derivation tree of construct i over the tokens behind p?  The  *)
(* position where it ends, or -1.  A node covers its tokens exactly: it    *)
(* ends with its last token, begins no later than its first and behind the *)
(* token before it; a node without tokens is empty, right behind the last  *)
(* token consumed before.                                                  *)
HiOf(X, p) == IF p = 0 THEN 0 ELSE X.T[p].hi
Covers(X, t, p, e) ==
  /\ t.hi = HiOf(X, e)
  /\ t.lo >= HiOf(X, p)
  /\ IF e > p THEN t.lo <= X.T[p + 1].lo ELSE t.lo = t.hi

RECURSIVE Fit(_, _, _, _, _), FitSeq(_, _, _, _, _, _), FitIn(_, _, _, _, _)
(* behind an empty construct the position of the next one is unaffected    *)
Fit(M, X, i, t, p) ==
  LET nd == Nodes[i]
      c(j) == nd.ch[j]
      e == FitIn(M, X, i, t, p)
  IN IF e >= 0 /\ Covers(X, t, p, e) THEN e ELSE -1
FitSeq(M, X, ch, ts, j, p) ==
  IF p < 0 THEN -1 ELSE IF j > Len(ts) THEN p
  ELSE FitSeq(M, X, ch, ts, j + 1, Fit(M, X, ch[((j - 1) % Len(ch)) + 1], ts[j], p))
(* the tokens behind p that lie inside a span *)
UpTo(X, p, t) == p + Cardinality({j \in (p + 1)..X.n : X.T[j].lo >= t.lo /\ X.T[j].hi <= t.hi})
(* elements and separators of a list, in turn *)
Alternate(ts, n) ==
  [j \in 1..Len(ts) |-> IF j % 2 = 1 THEN ts[(j + 1) \div 2] ELSE ts[n + (j \div 2)]]
NumElems(t) == CHOOSE n \in 0..Len(t.ch) : ToString(n) = t.v
FitIn(M, X, i, t, p) ==
  LET nd == Nodes[i]
      c(j) == nd.ch[j]
  IN
  CASE nd.k = "box" -> Fit(M, X, c(1), t, p)
    [] nd.k = "tok" -> IF t.k = "tok" /\ t.v = nd.ty /\ DEnds(M, X, i, p) # {} /\ t.lo = X.T[p + 1].lo
                       THEN p + 1 ELSE -1
    [] nd.k \in {"quote", "num"} ->
         LET e == UpTo(X, p, t) IN IF t.k = nd.k /\ e \in DEnds(M, X, i, p) THEN e ELSE -1
    [] nd.k = "exists" ->
         LET e == UpTo(X, p, t) IN
         IF t.k # nd.k THEN -1
         ELSE IF t.v = "0" THEN (IF e = p THEN p ELSE -1)
         ELSE IF t.v = "1" /\ e \in DEnds(M, X, c(1), p) THEN e ELSE -1
    [] nd.k = "opt" -> IF t.k = "opt" /\ Len(t.ch) <= 1 THEN FitSeq(M, X, <<c(1)>>, t.ch, 1, p) ELSE -1
    [] nd.k \in {"star", "plus"} ->
         IF t.k = "vec" /\ (nd.k = "star" \/ t.ch # <<>>) THEN FitSeq(M, X, <<c(1)>>, t.ch, 1, p) ELSE -1
    [] nd.k = "loop" -> IF t.k = "loop" THEN FitSeq(M, X, <<c(1)>>, t.ch, 1, p) ELSE -1
    [] nd.k \in {"split", "punct"} ->
         LET n == NumElems(t)
             ok == /\ t.k = nd.k
                   /\ \/ Len(t.ch) = 2 * n - 1
                      \/ nd.k = "punct" /\ Len(t.ch) = 2 * n
         IN IF ok THEN FitSeq(M, X, <<c(1), c(2)>>, Alternate(t.ch, n), 1, p) ELSE -1
    [] nd.k = "recover" ->
         IF t.k = "recover" /\ Len(t.ch) = 2 /\ t.ch[1].k = "opt" /\ Len(t.ch[1].ch) = 1
         THEN FitSeq(M, X, nd.ch, <<t.ch[1].ch[1], t.ch[2]>>, 1, p) ELSE -1
    [] nd.k \in {"tuple", "struct"} ->
         IF t.k = nd.k /\ t.v = nd.name /\ Len(t.ch) = Len(nd.ch) THEN FitSeq(M, X, nd.ch, t.ch, 1, p) ELSE -1
    [] nd.k = "enum" ->
         IF t.k = "enum" /\ Len(t.ch) = 1 /\ \E j \in DOMAIN nd.ch : t.v = nd.name \o "." \o ToString(j)
         THEN LET j == CHOOSE j \in DOMAIN nd.ch : t.v = nd.name \o "." \o ToString(j)
              IN Fit(M, X, c(j), t.ch[1], p)
         ELSE -1

-----------------------------------------------------------------------------
(* The tokens that carry semantic type S in an error-free tree: those in a *)
(* part that is annotated with it.  Types, by token index.                 *)
RECURSIVE Annotations(_, _)
(* the set of <<lo, hi, type>> of all annotated parts of the tree          *)
ChildNode(nd, t, j) ==
  CASE nd.k \in {"split", "punct"} -> IF j <= NumElems(t) THEN nd.ch[1] ELSE nd.ch[2]
    [] nd.k \in {"tuple", "struct"} -> nd.ch[j]
    [] nd.k = "enum" -> nd.ch[CHOOSE x \in DOMAIN nd.ch : t.v = nd.name \o "." \o ToString(x)]
    [] nd.k = "recover" -> nd.ch[j]
    [] OTHER -> nd.ch[1]
PartSem(nd, t, j) ==
  CASE nd.k = "struct" -> Ran(nd.sem[j])
    [] nd.k = "enum" -> Ran(nd.sem[CHOOSE x \in DOMAIN nd.ch : t.v = nd.name \o "." \o ToString(x)])
    [] OTHER -> {}
Annotations(i, t) ==
  LET nd == Nodes[i] IN
  IF nd.k = "box" THEN Annotations(nd.ch[1], t)
  ELSE IF nd.k = "recover" THEN
    UNION {Annotations(nd.ch[1], t.ch[1].ch[j]) : j \in DOMAIN t.ch[1].ch} \cup Annotations(nd.ch[2], t.ch[2])
  ELSE UNION {Annotations(ChildNode(nd, t, j), t.ch[j])
              \cup {<<t.ch[j].lo, t.ch[j].hi, y>> : y \in PartSem(nd, t, j)} : j \in DOMAIN t.ch}

-----------------------------------------------------------------------------
(* Spans of any tree, recovered ones included.                             *)
RECURSIVE WellFormed(_, _)
Ordered(ts, a, b) == \A x, y \in a..b : x < y => ts[x].hi <= ts[y].lo
WellFormed(t, len) ==
  /\ 0 <= t.lo /\ t.lo <= t.hi /\ t.hi <= len
  /\ \A j \in DOMAIN t.ch : t.lo <= t.ch[j].lo /\ t.ch[j].hi <= t.hi
  /\ IF t.k \in {"split", "punct"}
     THEN LET n == NumElems(t) IN
          /\ Ordered(t.ch, 1, n) /\ Ordered(t.ch, n + 1, Len(t.ch))
          /\ \A x \in 1..n, y \in (n + 1)..Len(t.ch) :
                t.ch[x].hi <= t.ch[y].lo \/ t.ch[y].hi <= t.ch[x].lo
     ELSE Ordered(t.ch, 1, Len(t.ch))
  /\ \A j \in DOMAIN t.ch : WellFormed(t.ch[j], len)
=============================================================================
