---------------------------- MODULE GrammarCheck ----------------------------
(***************************************************************************)
(* Conformance of the grammar analysis.  One state per analysed grammar:   *)
(* TLC computes what the grammar means (module Grammar) and compares it    *)
(* with what the implementation answered, under every assignment of type   *)
(* identifiers that was tried.                                             *)
(***************************************************************************)
EXTENDS Reports, Integers, TLC, Json, IOUtils

Pid   == IOEnv.PID
Cases == ndJsonDeserialize(IOEnv.OBS)
NCase == Len(Cases)
Chains == IF NCase < 256 THEN NCase ELSE 256

(* Terminals: type ty \in 0..2 and text 0, 1 (known) or 2 (any other text). *)
Probe(ty, t) == 3 * ty + t + 1
Probes == 1..9
Eof == 0
TermSet(p) == IF p.k # "term" THEN {}
              ELSE IF p.lit = 2 THEN {Probe(p.ty, t) : t \in 0..2}
              ELSE {Probe(p.ty, p.lit)}
Name(x) == "N" \o ToString(x)
TyName == <<"A", "B", "C">>
TextName == <<"'x'", "'y'">>
(* How a set of terminals is rendered: a type whose every text is included *)
(* by its name, otherwise the fixed texts in quotes.                       *)
Repr(S) ==
  UNION {IF Probe(ty, 2) \in S THEN {TyName[ty + 1]}
         ELSE {TextName[t + 1] : t \in {t \in 0..1 : Probe(ty, t) \in S}} : ty \in 0..2}

Meaning(c) ==
  LET Q  == [x \in DOMAIN c.prods |->
               [k |-> c.prods[x].k, ch |-> c.prods[x].ch, set |-> TermSet(c.prods[x])]]
      P  == TLCEval(Restrict(Q, Reach(Q, c.root)))
      N  == Nullable(P)
      F  == TLCEval(First(P, N))
      Fo == TLCEval(Follow(P, N, F, c.root, Eof))
      LR == LeftRecursive(P, N)
  IN [P |-> P, N |-> N, F |-> F, Fo |-> Fo, LR |-> LR, name |-> [x \in DOMAIN P |-> Name(x)],
      ll1 |-> IsLL1(P, N, F, Fo)]

-----------------------------------------------------------------------------
(* What each property requires of one answer r about grammar c.            *)
Died(r) == r.v \in {"panic", "abort", "timeout"}

FirstOk(m, r) ==
  \A x \in DOMAIN m.P :
    Ran(r.first[x]) = m.F[x] \cup (IF x \in m.N THEN {Eof} ELSE {})
FollowOk(m, r) == \A x \in DOMAIN m.P : Ran(r.follow[x]) = m.Fo[x]

(* The table must give the right alternative wherever the choice can be    *)
(* asked: tokens that begin an alternative, and, when the choice can be    *)
(* empty, tokens (or the end) that can follow it.  On any other lookahead  *)
(* it may only give the empty alternative or none.                         *)
JumpOk(m, r) ==
  \A x \in DOMAIN m.P : m.P[x].k = "union" =>
    \A a \in Probes \cup {Eof} :
      LET got == r.jump[x][a + 1]
          want == Chosen(m.P, m.N, m.F, x, a)
      IN IF a \in m.F[x] \cup (IF x \in m.N THEN m.Fo[x] ELSE {})
         THEN got = want
         ELSE got \in {0, want}

Labels(c) ==
  LET m == Meaning(c)
      R == Ran(c.runs)
      ok == {r \in R : r.v = "ok"}
  IN UNION {
      IF \E r \in R : Died(r) THEN {"died"} ELSE {},
      (* lemmas of the specification itself *)
      IF m.LR = {} /\ (m.ll1 # Predictive(m.P, m.N, m.F, m.Fo)) THEN {"spec-lemma"} ELSE {},
      IF Pid = "C01" /\ \E r \in R : (r.v = "ok") # m.ll1 THEN {"verdict"} ELSE {},
      IF Pid = "C04" /\ \E r \in R : ~LeftRecOk(m, r) THEN {"leftrec"} ELSE {},
      IF Pid = "C02" /\ \E r \in ok : ~FirstOk(m, r) THEN {"first"} ELSE {},
      IF Pid = "C03" /\ \E r \in ok : ~FollowOk(m, r) THEN {"follow"} ELSE {},
      IF Pid = "C05" /\ \E r \in R : ~Truthful(m, r, Repr) THEN {"report"} ELSE {},
      IF Pid = "C06" /\ \E r \in ok : ~JumpOk(m, r) THEN {"jump"} ELSE {},
      IF Pid = "C07" /\ Cardinality(R) > 1 THEN {"order"} ELSE {}}

Show(c, bad) ==
  bad = {} \/ PrintT(<<"MISMATCH", c.id, bad,
     LET m == Meaning(c) IN
     ToJson([id |-> c.id, bad |-> bad, nullable |-> m.N, first |-> [x \in DOMAIN m.F |-> m.F[x]],
             follow |-> [x \in DOMAIN m.Fo |-> m.Fo[x]], leftrec |-> m.LR, ll1 |-> m.ll1])>>)

-----------------------------------------------------------------------------
(* TLC keeps constant definitions only if no variable has the name of one *)
(* of their bound identifiers, hence the long names.                       *)
VARIABLES caseNo, verdict
Init == /\ caseNo \in 1..Chains /\ verdict = Labels(Cases[caseNo]) /\ Show(Cases[caseNo], verdict)
Next == /\ caseNo + Chains <= NCase
        /\ caseNo' = caseNo + Chains
        /\ verdict' = Labels(Cases[caseNo'])
        /\ Show(Cases[caseNo'], verdict')
Spec == Init /\ [][Next]_<<caseNo, verdict>>
Conforms == verdict = {}
=============================================================================
