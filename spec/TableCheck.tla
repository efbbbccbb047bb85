----------------------------- MODULE TableCheck -----------------------------
(* Conformance of the token table: one state per layout with all its       *)
(* queries, or per history of operations.                                  *)
EXTENDS TokenTable, IOUtils, Json
Cases == ndJsonDeserialize(IOEnv.OBS)
NCase == Len(Cases)
Chains == IF NCase < 512 THEN NCase ELSE 512

Bounds(S) == IF S = {} THEN <<>> ELSE LET hi == Max0(S) IN <<hi - Cardinality(S), hi>>
AsSet(s, S) == Len(s) = Cardinality(S) /\ \A j \in DOMAIN s : s[j] \in S /\ (j > 1 => s[j - 1] < s[j])
Query(T, q) ==
  LET I == Inside(T, q.lo, q.hi)  O == Overlapping(T, q.lo, q.hi) IN
  UNION {
    IF q.inb # Bounds(I) \/ ~AsSet(q["in"], I) THEN {"inside"} ELSE {},
    IF q.ovb # Bounds(O) \/ ~AsSet(q.ov, O) THEN {"overlap"} ELSE {},
    IF ~AsSet(q.at, Exactly(T, q.lo, q.hi)) THEN {"at_span"} ELSE {},
    IF ~AsSet(q.mi, I) \/ ~AsSet(q.mo, O) THEN {"marked"} ELSE {},
    IF ~Lemmas(T, q.lo, q.hi) THEN {"specification"} ELSE {}}
Runs(T, p) ==
  LET ok(t) == t.ty \in TRan(p.want)
      E == EndRun(T, p.pos, ok)  B == BeginRun(T, p.pos, ok) IN
  UNION {
    IF p.endb # Bounds(E) \/ ~AsSet(p.end, E) THEN {"ends_at"} ELSE {},
    IF p.begb # Bounds(B) \/ ~AsSet(p.beg, B) THEN {"begins_at"} ELSE {},
    IF ~AsSet(p.me, E) \/ ~AsSet(p.mb, B) THEN {"marked run"} ELSE {}}
Layout(c) ==
  LET T == [j \in DOMAIN c.toks |-> [ty |-> c.toks[j].ty, lo |-> c.toks[j].lo, hi |-> c.toks[j].hi, sem |-> {}]]
  IN UNION {Query(T, c.q[j]) : j \in DOMAIN c.q} \cup UNION {Runs(T, c.p[j]) : j \in DOMAIN c.p}

Cells(r) == [j \in DOMAIN r.cells |-> [ty |-> r.cells[j].ty, lo |-> r.cells[j].lo, hi |-> r.cells[j].hi,
                                       sem |-> TRan(r.cells[j].sem)]]
RECURSIVE Walk(_, _, _)
Walk(c, k, T) ==
  IF k > Len(c.ops) THEN {}
  ELSE LET U == Apply(T, c.ops[k])  r == c.runs[k]
           ok == /\ Cells(r) = U
                 /\ r.empty = (U = <<>>)
                 /\ \A j \in DOMAIN r.cells : r.cells[j].at /\ TRan(r.cells[j].types) = Types(U[j])
       IN IF ok THEN Walk(c, k + 1, U) ELSE {"operation " \o ToString(k) \o " " \o c.ops[k].k}
Labels(c) == IF c.end # "ok" THEN {c.end} ELSE IF c.k = "layout" THEN Layout(c) ELSE Walk(c, 1, <<>>)
Show(c, bad) == bad = {} \/ PrintT(<<"MISMATCH", c.id, bad, "{}">>)

VARIABLES caseNo, verdict
Init == /\ caseNo \in 1..Chains /\ verdict = Labels(Cases[caseNo]) /\ Show(Cases[caseNo], verdict)
Next == /\ caseNo + Chains <= NCase
        /\ caseNo' = caseNo + Chains
        /\ verdict' = Labels(Cases[caseNo'])
        /\ Show(Cases[caseNo'], verdict')
Spec == Init /\ [][Next]_<<caseNo, verdict>>
Conforms == verdict = {}
=============================================================================
