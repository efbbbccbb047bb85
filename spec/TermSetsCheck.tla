--------------------------- MODULE TermSetsCheck ---------------------------
(* Conformance of the sets of terminals: one state per history.            *)
EXTENDS TermSets, IOUtils, Json
Cases == ndJsonDeserialize(IOEnv.OBS)
NCase == Len(Cases)
Chains == IF NCase < 512 THEN NCase ELSE 512

Flag(b) == IF b THEN "yes" ELSE "no"
Plus(S) == S \cup (IF E \in S THEN {"none"} ELSE {})
Exact(s, S) == Len(s) = Cardinality(S) /\ SRan(s) = S
Terms(s, t, r) ==
  LET both == t.a \cap t.b IN
  UNION {
    IF r.changed \notin {"none", Flag(t.a # s.a)} THEN {"change report"} ELSE {},
    IF SRan(r.a) # Plus(t.a) \/ SRan(r.b) # Plus(t.b) THEN {"members"} ELSE {},
    IF r.meet \notin {"none", Flag(both # {})} \/ r.meetne # Flag(both \ {E} # {}) THEN {"intersects"} ELSE {},
    IF r.meet # "none" /\ ~Exact(r.both, Repr(both)) THEN {"intersection"} ELSE {},
    IF ~Exact(r.bothne, Repr(both \ {E})) THEN {"intersection without marker"} ELSE {},
    IF r.same # (t.a = t.b) THEN {"equality"} ELSE {},
    IF r.show # Display(t.a) THEN {"display"} ELSE {},
    IF r.dbg # "" /\ (r.dbg # Debug(t.a) \/ ~Exact(r.repr, Repr(t.a))) THEN {"rendering"} ELSE {}}
Lits(s, t, r) ==
  LET both == t.a \cap t.b IN
  UNION {
    IF r.changed \notin {"none", Flag(t.a # s.a)} THEN {"change report"} ELSE {},
    IF SRan(r.a) # t.a \/ SRan(r.b) # t.b THEN {"members"} ELSE {},
    IF r.empty # (t.a = {}) \/ r.all # (t.a = Texts) THEN {"emptiness"} ELSE {},
    IF r.listed # (IF t.a = Texts THEN <<"all">> ELSE SelectSeq(<<"x", "y", "z">>, LAMBDA x : x \in t.a)) THEN {"iteration"} ELSE {},
    IF r.meet # (both # {}) \/ SRan(r.both) # both THEN {"intersection"} ELSE {},
    IF r.same # (t.a = t.b) THEN {"equality"} ELSE {}}
RECURSIVE Walk(_, _, _)
Walk(c, k, s) ==
  IF k > Len(c.ops) THEN {}
  ELSE LET t == IF c.k = "terms" THEN Apply(s, c.ops[k]) ELSE TextApply(s, c.ops[k])
           bad == IF c.k = "terms" THEN Terms(s, t, c.runs[k]) ELSE Lits(s, t, c.runs[k])
       IN IF bad # {} THEN bad \cup {"operation " \o ToString(k) \o " " \o c.ops[k].k} ELSE Walk(c, k + 1, t)
Labels(c) == IF c.end # "ok" THEN {c.end} ELSE Walk(c, 1, [a |-> {}, b |-> {}])
Show(c, bad) == bad = {} \/ PrintT(<<"MISMATCH", c.id, bad, "{}">>)

VARIABLES caseNo, verdict
Init == /\ caseNo \in 1..Chains /\ verdict = Labels(Cases[caseNo]) /\ Show(Cases[caseNo], verdict)
Next == /\ caseNo + Chains <= NCase
        /\ caseNo' = caseNo + Chains
        /\ verdict' = Labels(Cases[caseNo'])
        /\ Show(Cases[caseNo'], verdict')
Spec == Init /\ [][Next]_<<caseNo, verdict>>
Conforms == verdict = {}
=============================================================================
