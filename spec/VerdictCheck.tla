---------------------------- MODULE VerdictCheck ----------------------------
(***************************************************************************)
(* Is the verdict on every root the right one?  One state per root: the    *)
(* kind of report the metadata gives and whether asserting LL(1) failed.   *)
(***************************************************************************)
EXTENDS Syntax

Cases == ndJsonDeserialize(IOEnv.OBS)
NCase == Len(Cases)
Chains == IF NCase < 64 THEN NCase ELSE 64
Labels(c) ==
  LET M == Meta[c.g] IN
  UNION {
    IF (c.v = "ok") # M.ll1 THEN {"verdict " \o c.v} ELSE {},
    IF c.asserts # ~M.ll1 THEN {"assertion"} ELSE {},
    IF c.v = "leftrec" /\ ~M.leftrec THEN {"not left recursive"} ELSE {},
    IF c.v \notin {"ok", "leftrec", "firstfirst", "seq", "firstfollow"} THEN {c.v} ELSE {}}
Show(c, bad) == bad = {} \/ PrintT(<<"MISMATCH", c.id, bad, ToJson([ll1 |-> Meta[c.g].ll1, leftrec |-> Meta[c.g].leftrec])>>)

VARIABLES caseNo, verdict
Init == /\ caseNo \in 1..Chains /\ verdict = Labels(Cases[caseNo]) /\ Show(Cases[caseNo], verdict)
Next == /\ caseNo + Chains <= NCase
        /\ caseNo' = caseNo + Chains
        /\ verdict' = Labels(Cases[caseNo'])
        /\ Show(Cases[caseNo'], verdict')
Spec == Init /\ [][Next]_<<caseNo, verdict>>
Conforms == verdict = {}
=============================================================================
