------------------------- MODULE LexiconRulesCheck -------------------------
(* Conformance of the validation: one state per definition that was        *)
(* compiled.                                                               *)
EXTENDS LexiconRules, TLC, IOUtils, Json
Cases == ndJsonDeserialize(IOEnv.OBS)
NCase == Len(Cases)
Chains == IF NCase < 512 THEN NCase ELSE 512
Labels(c) ==
  LET B == Broken(c.def) IN
  IF c.accepted = (B = {}) THEN {}
  ELSE IF c.accepted THEN {"accepted: " \o x : x \in B} ELSE {"rejected"}
Show(c, bad) == bad = {} \/ PrintT(<<"MISMATCH", c.id, bad, "{}">>)

VARIABLES caseNo, verdict
Init == /\ caseNo \in 1..Chains /\ verdict = Labels(Cases[caseNo]) /\ Show(Cases[caseNo], verdict)
Next == /\ caseNo + Chains <= NCase
        /\ caseNo' = caseNo + Chains
        /\ verdict' = Labels(Cases[caseNo'])
        /\ Show(Cases[caseNo'], verdict')
Spec == Init /\ [][Next]_<<caseNo, verdict>>
Conforms == verdict = {}
=============================================================================
