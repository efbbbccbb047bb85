--------------------------- MODULE TypeSetsCheck ---------------------------
(* Conformance of token-type sets and tables: one state per lexicon or per *)
(* history of operations.                                                  *)
EXTENDS TypeSets, IOUtils, Json
Cases == ndJsonDeserialize(IOEnv.OBS)
NCase == Len(Cases)
Chains == IF NCase < 512 THEN NCase ELSE 512

Step(n, t, r) ==
  LET ord(S) == Sorted(S, n)  tab == [i \in 1..n |-> t.m[i - 1]] IN
  UNION {
    IF r.a # ord(t.a) \/ r.b # ord(t.b) THEN {"iteration"} ELSE {},
    IF r.has # ord(t.a) THEN {"membership"} ELSE {},
    IF r.empty # (t.a = {}) THEN {"emptiness"} ELSE {},
    IF r.all # (t.b \subseteq t.a) \/ r.back # (t.a \subseteq t.b) THEN {"inclusion"} ELSE {},
    IF r.same # (t.a = t.b) THEN {"equality"} ELSE {},
    IF r.types # ord(t.a \cup {n \div 2}) THEN {"types of a token"} ELSE {},
    IF r.show # "{" \o Names(ord(t.a)) \o "}" THEN {"rendering"} ELSE {},
    IF r.get # tab \/ r.it # tab \/ r.zip # [i \in 1..n |-> <<i - 1, tab[i]>>] THEN {"table"} ELSE {}}
RECURSIVE Walk(_, _, _)
Walk(c, k, s) ==
  IF k > Len(c.ops) THEN {}
  ELSE LET t == Apply(s, c.ops[k])  bad == Step(c.n, t, c.runs[k])
       IN IF bad # {} THEN bad \cup {"operation " \o ToString(k) \o " " \o c.ops[k].k} ELSE Walk(c, k + 1, t)
Lexicon(c) ==
  LET all == [i \in 1..c.n |-> i - 1] IN
  IF c.ids = all /\ c.back = all /\ c.names = [i \in 1..c.n |-> Name(i - 1)] /\ c.eq = [i \in 1..c.n |-> 1]
  THEN {} ELSE {"order of types"}
Labels(c) == IF c.end # "ok" THEN {c.end} ELSE IF c.k = "lexicon" THEN Lexicon(c) ELSE Walk(c, 1, Fresh(c.n))
Show(c, bad) == bad = {} \/ PrintT(<<"MISMATCH", c.id, bad, "{}">>)

VARIABLES caseNo, verdict
Init == /\ caseNo \in 1..Chains /\ verdict = Labels(Cases[caseNo]) /\ Show(Cases[caseNo], verdict)
Next == /\ caseNo + Chains <= NCase
        /\ caseNo' = caseNo + Chains
        /\ verdict' = Labels(Cases[caseNo'])
        /\ Show(Cases[caseNo'], verdict')
Spec == Init /\ [][Next]_<<caseNo, verdict>>
Conforms == verdict = {}
=============================================================================
