----------------------------- MODULE ParseCheck -----------------------------
(***************************************************************************)
(* Conformance of parsing.  One state per recorded run of the real parser: *)
(* a text, and the roots parsed on it one after another.  TLC replays the  *)
(* run in the model and judges what the implementation answered - against  *)
(* the model step by step, and against the declarative meaning of the      *)
(* grammar (Derive) where the property is about that.                      *)
(***************************************************************************)
EXTENDS ParseProps

Cases == ndJsonDeserialize(IOEnv.OBS)
NCase == Len(Cases)
Chains == IF NCase < 512 THEN NCase ELSE 512

-----------------------------------------------------------------------------
Replays == {"C06", "C12", "C13", "C14", "C15", "C16", "C17", "C18", "C21", "C22", "C23", "C10", "C29", "C30", "C31"}

RECURSIVE Walk(_, _, _, _, _, _)
(* all parses of a case; s: state, errs: errors so far                     *)
Walk(c, X, k, s, errs, bad) ==
  IF k > Len(c.plan) THEN
     IF Pid \in (Replays \cup {"C09"}) /\ c.rest # CurLo(X, Peek(s)) THEN bad \cup {"rest"} ELSE bad
  ELSE
    LET M == Meta[c.plan[k]]
        r == c.runs[k]
        a == Answer(M, X, s, errs)
        before == Len(errs)
        now == UNION {
          IF Pid \in Replays THEN Operational(c, X, a, r) ELSE {},
          IF Pid \in {"C20", "C22", "C23"} THEN State(c, M, X, a, r) ELSE {},
          IF Pid \in {"C20", "C23"} /\ GotToks(r) # TokensOf(X, a.s) THEN {"semantic"} ELSE {},
          IF Pid \in {"C01", "C29"} /\ (r.out = "gerr") # ~M.ll1 THEN {"verdict"} ELSE {},
          IF Pid \in {"C01", "C23"} /\ ~M.ll1 /\ (r.toks # (IF k = 1 THEN <<>> ELSE c.runs[k - 1].toks)
                 \/ GotErrs(r) # errs) THEN {"touched"} ELSE {},
          IF M.ll1 /\ r.out # "gerr" THEN Declarative(M, X, r, s.c, before) ELSE {}}
    IN IF now # {} THEN bad \cup now
       ELSE Walk(c, X, k + 1, a.s, a.e, bad)

Ambiguous(lex, X) == \E j \in 1..(Len(X.w)) : ~Unambiguous(lex, X.w, j)

Labels(c) ==
  LET lex == Lexicons[c.lex] IN
  IF c.end # "ok" THEN {c.end}
  ELSE LET X == ReadInput(lex, c.in, c.off)
       IN Walk(c, X, 1, Start, <<>>, {})

Show(c, bad) ==
  bad = {} \/ PrintT(<<"MISMATCH", c.id, bad,
     IF c.end # "ok" THEN "{}" ELSE
     LET lex == Lexicons[c.lex]
         X == ReadInput(lex, c.in, c.off)
         M == Meta[c.plan[1]]
         a == Answer(M, X, Start, <<>>)
     IN ToJson([bad |-> bad, root |-> Roots[c.plan[1]].name, ll1 |-> M.ll1,
                tokens |-> [j \in 1..X.n |-> X.T[j].pr], outcome |-> a.out, tree |-> a.t, errors |-> a.e,
                consumed |-> a.s.c,
                farthest |-> IF M.ll1 /\ Begins(M, X, M.node, 0) # {} THEN Farthest(M, X, 0) ELSE 0])>>)

-----------------------------------------------------------------------------
(* TLC keeps constant definitions only if no variable has the name of one *)
(* of their bound identifiers, hence the long names.                       *)
VARIABLES caseNo, verdict
Init == /\ caseNo \in 1..Chains /\ verdict = Labels(Cases[caseNo]) /\ Show(Cases[caseNo], verdict)
Next == /\ caseNo + Chains <= NCase
        /\ caseNo' = caseNo + Chains
        /\ verdict' = Labels(Cases[caseNo'])
        /\ Show(Cases[caseNo'], verdict')
Spec == Init /\ [][Next]_<<caseNo, verdict>>
Conforms == verdict = {}
ASSUME TableOk
=============================================================================
