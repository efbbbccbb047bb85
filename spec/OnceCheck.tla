----------------------------- MODULE OnceCheck -----------------------------
(***************************************************************************)
(* What the threads of one process got from the same grammars: one verdict,*)
(* one message, one set of tables for each, all calls answered, and the    *)
(* verdict is that of the grammar.  (What they parsed is judged call by    *)
(* call with ParseCheck.)                                                  *)
(***************************************************************************)
EXTENDS Syntax

Cases == ndJsonDeserialize(IOEnv.OBS)
NCase == Len(Cases)
Chains == IF NCase < 512 THEN NCase ELSE 512
Labels(c) ==
  IF c.end # "ok" THEN {c.end}
  ELSE UNION {
    IF Len(c.calls) # c.asked THEN {"lost"} ELSE {},
    UNION {LET x == c.calls[i] IN
           UNION {IF x.v = "panic" THEN {"panic"}
                  ELSE IF (x.v = "ok") # Meta[x.g].ll1 THEN {"verdict"} ELSE {},
                  IF \E j \in 1..(i - 1) : c.calls[j].g = x.g
                       /\ <<c.calls[j].v, c.calls[j].say, c.calls[j].tab>> # <<x.v, x.say, x.tab>>
                  THEN {"differ"} ELSE {}}
           : i \in DOMAIN c.calls}}
Show(c, bad) == bad = {} \/ PrintT(<<"MISMATCH", c.id, bad, ToJson([got |-> IF c.end = "ok" THEN c.calls ELSE <<>>])>>)

VARIABLES caseNo, verdict
Init == /\ caseNo \in 1..Chains /\ verdict = Labels(Cases[caseNo]) /\ Show(Cases[caseNo], verdict)
Next == /\ caseNo + Chains <= NCase
        /\ caseNo' = caseNo + Chains
        /\ verdict' = Labels(Cases[caseNo'])
        /\ Show(Cases[caseNo'], verdict')
Spec == Init /\ [][Next]_<<caseNo, verdict>>
Conforms == verdict = {}
=============================================================================
