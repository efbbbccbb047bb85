------------------------------ MODULE LexCheck ------------------------------
(***************************************************************************)
(* Conformance of the lexer: one state per text read to its end.           *)
(* Lexicons in the table: [types, ext, lits, order, rules].                *)
(***************************************************************************)
EXTENDS Lexing, TLC, IOUtils, Json

Lexicons == TLCEval(ndJsonDeserialize(IOEnv.LEXICONS)[1].lexicons)
Cases == ndJsonDeserialize(IOEnv.OBS)
NCase == Len(Cases)
Chains == IF NCase < 512 THEN NCase ELSE 512

At(c, i) == c.off[i]
Want(c, lex) ==
  LET F == LexAll(lex, c.in)
      one(f) == [inv |-> IF f.inv = <<>> THEN <<>> ELSE <<At(c, f.inv[1]), At(c, f.inv[2])>>,
                 tok |-> IF f.tok = <<>> THEN <<>>
                         ELSE <<[ty |-> f.tok[1], lo |-> At(c, f.tok[2]), hi |-> At(c, f.tok[3]),
                                 txt |-> SubSeq(c.in, f.tok[2], f.tok[3] - 1),
                                 extract |-> f.tok[1] \in LRan(lex.ext)]>>]
  IN [j \in DOMAIN F |-> one(F[j])]
Nothing == [inv |-> <<>>, tok |-> <<>>]

(* Stated on the answers alone: a partition of the text.                   *)
Parts(c) == [j \in DOMAIN c.reads |-> c.reads[j]]
Spans(c) ==
  LET P(r) == (IF r.inv = <<>> THEN <<>> ELSE <<r.inv>>)
              \o (IF r.tok = <<>> THEN <<>> ELSE <<<<r.tok[1].lo, r.tok[1].hi>>>>)
      all[j \in 0..Len(c.reads)] == IF j = 0 THEN <<>> ELSE all[j - 1] \o P(c.reads[j])
  IN all[Len(c.reads)]
Partition(c) ==
  LET S == Spans(c) IN
  /\ \A j \in DOMAIN S : S[j][1] < S[j][2] /\ S[j][1] \in LRan(c.off) /\ S[j][2] \in LRan(c.off)
  /\ \A j \in 1..(Len(S) - 1) : S[j][2] <= S[j + 1][1]

Labels(c) ==
  IF c.end # "ok" THEN {c.end}
  ELSE LET lex == Lexicons[c.lex] IN
    UNION {
      (* patterns that tie leave the choice open *)
      IF (\A i \in 1..Len(c.in) : Unambiguous(lex, c.in, i)) /\ c.reads # Want(c, lex) \o <<Nothing>>
      THEN {"reading"} ELSE {},
      IF ~Partition(c) THEN {"partition"} ELSE {}}
Show(c, bad) ==
  bad = {} \/ PrintT(<<"MISMATCH", c.id, bad, IF c.end # "ok" THEN "{}" ELSE ToJson([want |-> Want(c, Lexicons[c.lex])])>>)

VARIABLES caseNo, verdict
Init == /\ caseNo \in 1..Chains /\ verdict = Labels(Cases[caseNo]) /\ Show(Cases[caseNo], verdict)
Next == /\ caseNo + Chains <= NCase
        /\ caseNo' = caseNo + Chains
        /\ verdict' = Labels(Cases[caseNo'])
        /\ Show(Cases[caseNo'], verdict')
Spec == Init /\ [][Next]_<<caseNo, verdict>>
Conforms == verdict = {}
=============================================================================
