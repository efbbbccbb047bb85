----------------------------- MODULE ParseProps -----------------------------
(***************************************************************************)
(* The properties of one parse, stated on an observation of it: what was   *)
(* answered and what the parser had recorded afterwards.  ParseCheck asks  *)
(* them of recorded runs of the real parser, ParserModel of the model's    *)
(* own parses.                                                             *)
(* An observation r: [out, tree, errs, toks, ext, inv], where toks holds   *)
(* the tokens consumed so far and errs all errors recorded so far.         *)
(***************************************************************************)
EXTENDS Session

Pid   == IOEnv.PID

-----------------------------------------------------------------------------
(* The syntax errors the implementation added in this parse.               *)
OwnErrs(r, before) == SelectSeq(SubSeq(GotErrs(r), before + 1, Len(r.errs)), LAMBDA e : e.k # "chars")

(* c: the case, k: which parse of it, M: its grammar, s: the state before, *)
(* a: the model's answer, r: what was observed.                            *)
Operational(c, X, a, r) ==
  UNION {
    IF r.out # a.out THEN {"outcome"} ELSE {},
    IF r.tree # a.t THEN {"tree"} ELSE {},
    IF GotErrs(r) # a.e THEN {"errors"} ELSE {},
    IF Len(r.toks) # a.s.c THEN {"consumed"} ELSE {}}
State(c, M, X, a, r) ==
  UNION {
    IF PlainToks(r.toks) # PlainToks(TokensOf(X, a.s)) THEN {"tokens"} ELSE {},
    IF r.ext # Extracted(M.lex, X, 0, a.s.f) THEN {"extracted"} ELSE {},
    IF r.inv # Invalid(X, 0, a.s.f) THEN {"invalid"} ELSE {}}

HasPunct(M) == \E i \in M.nodes : Nodes[i].k = "punct"
HasLoop(M) == \E i \in M.nodes : Nodes[i].k = "loop"
MinLo(E) == MinOf({E[j].lo : j \in DOMAIN E})

(* What a tree holds of the text: the spans of its leaves; a leaf without  *)
(* text is a token that was made up.                                       *)
RECURSIVE LeavesOf(_)
LeavesOf(t) ==
  IF t.k \in {"tok", "quote", "num", "exists"} THEN <<t>>
  ELSE LET RECURSIVE Go(_)
           Go(j) == IF j > Len(t.ch) THEN <<>> ELSE LeavesOf(t.ch[j]) \o Go(j + 1)
       IN Go(1)
(* Tokens that were consumed without becoming part of the tree are blamed  *)
(* by an error on them or on what comes right behind them; so is every     *)
(* token that was made up; a failure is reported up to where parsing stopped;    *)
(* every unlexable stretch seen has its one error.                         *)
Reported(M, X, r, own, p) ==
  LET used == Len(r.toks)
      next(j) == IF j < X.n THEN X.T[j + 1].lo ELSE X.len
      L == LeavesOf(r.tree)
      kept(j) == \E x \in DOMAIN L : L[x].lo <= X.T[j].lo /\ X.T[j].hi <= L[x].hi
      lost == {j \in (p + 1)..used : ~kept(j)}
      end(j) == CHOOSE k \in j..used : /\ \A y \in j..k : y \in lost
                                       /\ k + 1 \notin lost
      blamed(j) == \E x \in DOMAIN own : own[x].lo <= next(end(j)) /\ own[x].hi >= X.T[j].lo
      made == {x \in DOMAIN L : L[x].k = "tok" /\ L[x].lo = L[x].hi}
      chars == SelectSeq(GotErrs(r), LAMBDA e : e.k = "chars")
  IN UNION {
    IF r.out = "tree" /\ \E j \in lost : ~blamed(j) THEN {"lost"} ELSE {},
    IF r.out = "tree" /\ Cardinality(made) > Cardinality({x \in DOMAIN own : own[x].k = "expecting"}) THEN {"made up"} ELSE {},
    IF r.out = "tree" /\ \E x \in made : \A y \in DOMAIN own :
         ~(own[y].k = "expecting" /\ own[y].lo = next(Cardinality({j \in 1..X.n : X.T[j].hi <= L[x].lo}))) THEN {"made up at"} ELSE {},
    IF r.out = "none" /\ (own = <<>> \/ own[Len(own)].hi < (IF used > p THEN X.T[used].hi ELSE next(used))) THEN {"failure"} ELSE {},
    IF [j \in DOMAIN chars |-> [lo |-> chars[j].lo, hi |-> chars[j].hi]] # r.inv THEN {"unlexable"} ELSE {}}

(* before: errors recorded before this parse; p: tokens consumed before    *)
Declarative(M, X, r, p, before) ==
  LET own == OwnErrs(r, before)
      used == Len(r.toks)
      far == Farthest(M, X, p)
      fit == Fit(M, X, M.node, r.tree, p)
  IN UNION {
    IF Pid = "C08" /\ Sentence(M, X, p, X.n)
       /\ ~(r.out = "tree" /\ own = <<>> /\ used = X.n /\ fit = X.n) THEN {"sentence"} ELSE {},
    IF Pid = "C09" /\ r.out = "tree" /\ own = <<>>
       /\ ~(Sentence(M, X, p, used) /\ fit = used) THEN {"derivation"} ELSE {},
    IF Pid = "C10" /\ ~HasLoop(M) THEN
       IF own = <<>> THEN (IF Sentence(M, X, p, far) THEN {} ELSE {"silent"})
       ELSE IF Sentence(M, X, p, far) /\ ~HasPunct(M) THEN {"blamed"}
       ELSE IF MinLo(own) # (IF far < X.n THEN X.T[far + 1].lo ELSE X.len) THEN {"place"} ELSE {}
    ELSE {},
    IF Pid = "C19" /\ r.out = "tree"
       /\ ~(/\ WellFormed(r.tree, X.len)
            /\ own = <<>> => fit = used) THEN {"spans"} ELSE {},
    IF Pid = "C20" /\ r.out = "tree" /\ own = <<>> /\ fit = used
       /\ \A i \in M.nodes : Nodes[i].k \notin {"quote", "num", "exists"} THEN
       LET A == Annotations(M.node, r.tree) IN
       IF \E j \in (p + 1)..used :
            Ran(r.toks[j].sem) # {x[3] : x \in {x \in A : x[1] <= X.T[j].lo /\ X.T[j].hi <= x[2]}}
       THEN {"annotated"} ELSE {}
    ELSE {},
    IF Pid = "C31" THEN Reported(M, X, r, own, p) ELSE {},
    IF Pid = "C30" /\ \E j \in DOMAIN r.errs : r.errs[j].msg # Message(M.lex, X, r.errs[j]) THEN {"message"} ELSE {},
    IF Pid = "C11" /\ \E j \in DOMAIN r.errs : r.errs[j].k = "noadvance" THEN {"noadvance"} ELSE {}}
=============================================================================
