---------------------------- MODULE SessionCheck ----------------------------
(***************************************************************************)
(* Conformance of call histories: one state per recorded history of calls  *)
(* on a real parser, replayed in Session.                                  *)
(***************************************************************************)
EXTENDS Session

Pid   == IOEnv.PID
Cases == ndJsonDeserialize(IOEnv.OBS)
NCase == Len(Cases)
Chains == IF NCase < 512 THEN NCase ELSE 512

GotOwn(r) == [j \in DOMAIN r.own |-> Err(r.own[j].k, r.own[j].lo, r.own[j].hi, Ran(r.own[j].exp))]
Judge(lex, X, y, errs, r) ==
  UNION {
    IF [Plain(r.st) EXCEPT !.ty = r.ty, !.lo = r.lo, !.hi = r.hi, !.txt = r.txt, !.own = GotOwn(r), !.tree = r.tree]
       # y.r THEN {"answer"} ELSE {},
    IF GotErrs(r) # errs \o y.e THEN {"errors"} ELSE {},
    IF GotToks(r) # TokensOf(X, y.s) THEN {"tokens"} ELSE {},
    IF r.ext # Extracted(lex, X, 0, y.s.f) THEN {"extracted"} ELSE {},
    IF r.inv # Invalid(X, 0, y.s.f) THEN {"invalid"} ELSE {},
    IF ~RecordOk(lex, X, r.toks, r.ext, r.inv) THEN {"record"} ELSE {}}

RECURSIVE Walk(_, _, _, _, _, _)
Walk(lex, X, c, k, s, errs) ==
  IF k > Len(c.ops) THEN {}
  ELSE LET y == Call(lex, X, c.ops[k], s)
           bad == Judge(lex, X, y, errs, c.runs[k])
       IN IF bad # {} THEN bad \cup {"call " \o ToString(k) \o " " \o c.ops[k].k}
          ELSE Walk(lex, X, c, k + 1, y.s, errs \o y.e)
Labels(c) ==
  IF c.end # "ok" THEN {c.end}
  ELSE LET lex == Lexicons[c.lex]  X == ReadInput(lex, c.in, c.off) IN Walk(lex, X, c, 1, Start, <<>>)
Show(c, bad) == bad = {} \/ PrintT(<<"MISMATCH", c.id, bad, ToJson([bad |-> bad])>>)

VARIABLES caseNo, verdict
Init == /\ caseNo \in 1..Chains /\ verdict = Labels(Cases[caseNo]) /\ Show(Cases[caseNo], verdict)
Next == /\ caseNo + Chains <= NCase
        /\ caseNo' = caseNo + Chains
        /\ verdict' = Labels(Cases[caseNo'])
        /\ Show(Cases[caseNo'], verdict')
Spec == Init /\ [][Next]_<<caseNo, verdict>>
Conforms == verdict = {}
=============================================================================
