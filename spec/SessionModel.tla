---------------------------- MODULE SessionModel ----------------------------
(***************************************************************************)
(* All call histories on a parser.  TLC explores every state a parser can  *)
(* get into on each of a few texts by any history of calls from a set of   *)
(* calls (what has been consumed, looked at and marked), shows that what   *)
(* the parser has recorded is right in all of them, and prints for every   *)
(* transition a history that ends with it, for replay on the real parser.  *)
(*                                                                         *)
(* Scenes: <<[lex, in, off, ops]>>, a text and the calls tried on it.      *)
(***************************************************************************)
EXTENDS Session

Scenes == TLCEval(ndJsonDeserialize(IOEnv.SCENES))
Inputs == TLCEval([n \in DOMAIN Scenes |-> TLCEval(ReadInput(Lexicons[Scenes[n].lex], Scenes[n].in, Scenes[n].off))])
LexOf(n) == Lexicons[Scenes[n].lex]
MaxMarks == 2

VARIABLES scene, pstate, errlog, history
sessionVars == <<scene, pstate, errlog, history>>
Init == scene \in DOMAIN Scenes /\ pstate = Start /\ errlog = <<>> /\ history = <<>>
Do(o) ==
  LET y == Call(LexOf(scene), Inputs[scene], Scenes[scene].ops[o], pstate) IN
  /\ PrintT("H" \o ToJson(<<scene>> \o Append(history, o)))
  /\ pstate' = y.s
  /\ errlog' = errlog \o y.e
  /\ history' = Append(history, o)
  /\ UNCHANGED scene
Next == \E o \in DOMAIN Scenes[scene].ops :
          (Scenes[scene].ops[o].k = "mark" => Len(pstate.sem) < MaxMarks) /\ Do(o)
Spec == Init /\ [][Next]_sessionVars

(* States are told apart by what calls can depend on.                      *)
Distinguish == <<scene, pstate.c, pstate.f, Ran(pstate.sem)>>

-----------------------------------------------------------------------------
Recorded ==
  LET X == Inputs[scene]  lex == LexOf(scene) IN
  RecordOk(lex, X, TokensOf(X, pstate), Extracted(lex, X, 0, pstate.f), Invalid(X, 0, pstate.f))
(* Every unlexable stretch seen is logged once, in order.                  *)
Logged ==
  LET X == Inputs[scene]  E == SelectSeq(errlog, LAMBDA e : e.k = "chars") IN E = CharErrors(X, 0, pstate.f)
Within == pstate.c <= pstate.f /\ pstate.f <= Inputs[scene].n + 1 /\ pstate.c <= Inputs[scene].n
(* Nothing consumed, looked at or marked is ever undone.                   *)
Forward ==
  [][/\ pstate'.c >= pstate.c /\ pstate'.f >= pstate.f
     /\ SubSeq(pstate'.sem, 1, Len(pstate.sem)) = pstate.sem
     /\ SubSeq(errlog', 1, Len(errlog)) = errlog]_sessionVars
=============================================================================
