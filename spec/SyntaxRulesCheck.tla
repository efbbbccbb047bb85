------------------------- MODULE SyntaxRulesCheck -------------------------
(* Conformance of the derives: one state per definition that was compiled. *)
(* An observation has the definition, whether it was accepted, and for     *)
(* accepted ones: is it a root, which test was generated and how it ended  *)
(* ("", "ok", "failed"), what values of it said.                           *)
EXTENDS SyntaxRules, TLC, IOUtils, Json
Cases == ndJsonDeserialize(IOEnv.OBS)
NCase == Len(Cases)
Chains == IF NCase < 512 THEN NCase ELSE 512

SpanLabels(c) ==
  IF c.def.derive # "span" THEN {}
  ELSE IF \E j \in DOMAIN c.values : c.values[j].got # SpanOf(c.values[j].spans) THEN {"span"} ELSE {}
NodeLabels(c) ==
  IF c.def.derive # "node" THEN {}
  ELSE UNION {
    LET v == c.values[j]
        h == Helper(v.node, Len(c.def.alts[1].fields)) IN
    UNION {IF v.made # h THEN {"made from node"} ELSE {},
           IF v.read # h.value THEN {"deref"} ELSE {},
           IF v.changed # Changed(h, v.to) THEN {"deref mut"} ELSE {},
           IF v.taken # Changed(h, v.to).value THEN {"into inner"} ELSE {}}
    : j \in DOMAIN c.values}
Labels(c) ==
  LET B == Broken(c.def) IN
  IF c.accepted # (B = {}) THEN IF c.accepted THEN {"accepted: " \o x : x \in B} ELSE {"rejected"}
  ELSE IF ~c.accepted THEN {}
  ELSE UNION {
    IF c.root # IsRoot(c.def) THEN {"root"} ELSE {},
    IF c.test # (IF ~HasTest(c.def) THEN "" ELSE IF IsLL1(c.def) THEN "ok" ELSE "failed") THEN {"test"} ELSE {},
    SpanLabels(c), NodeLabels(c)}
Show(c, bad) == bad = {} \/ PrintT(<<"MISMATCH", c.id, bad, "{}">>)

VARIABLES caseNo, verdict
Init == /\ caseNo \in 1..Chains /\ verdict = Labels(Cases[caseNo]) /\ Show(Cases[caseNo], verdict)
Next == /\ caseNo + Chains <= NCase
        /\ caseNo' = caseNo + Chains
        /\ verdict' = Labels(Cases[caseNo'])
        /\ Show(Cases[caseNo'], verdict')
Spec == Init /\ [][Next]_<<caseNo, verdict>>
Conforms == verdict = {}
=============================================================================
