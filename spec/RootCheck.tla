----------------------------- MODULE RootCheck -----------------------------
(***************************************************************************)
(* The analysis of roots as a program has it: derived types and the        *)
(* provided constructs, through the metadata of the root.  One state per   *)
(* root.  An observation gives                                             *)
(*   runs   : the distinct answers of repeated analyses, each a report     *)
(*            [v, f, terms] or, for accepted roots, v = "ok" and           *)
(*            sets = <<[name, first, eps, follow, eof, jump]>>, one per    *)
(*            construct of the root, in no particular order                *)
(*   says   : whether the text of the report names all of it               *)
(* jump gives, for every terminal and last the end of input, the number of *)
(* the chosen alternative or 0.                                            *)
(***************************************************************************)
EXTENDS Syntax, Reports

Pid   == IOEnv.PID
Cases == ndJsonDeserialize(IOEnv.OBS)
NCase == Len(Cases)
Chains == IF NCase < 64 THEN NCase ELSE 64

(* What constructs are called.                                             *)
RECURSIVE N(_), NTuple(_, _)
Under(i) == Nodes[i].k \in {"box", "quote", "num"}
RECURSIVE Bare(_)
Bare(i) == IF Under(i) THEN Bare(Nodes[i].ch[1]) ELSE i
Many(t) == "( " \o t \o " )"
Listed(t, p) == "( " \o t \o " )[" \o p \o "]"
NOpt(i) ==
  LET nd == Nodes[Bare(i)] IN
  CASE nd.k \in {"plus", "loop"} -> Many(N(nd.ch[1])) \o "*"
    [] nd.k = "punct"            -> Listed(N(nd.ch[1]), N(nd.ch[2])) \o "*"
    [] OTHER                     -> "(" \o N(i) \o ")?"
NTuple(ch, j) == IF j = Len(ch) THEN N(ch[j]) ELSE N(ch[j]) \o " " \o NTuple(ch, j + 1)
N(i) ==
  LET nd == Nodes[i] IN
  CASE nd.k \in {"tok", "struct", "enum"} -> nd.show
    [] nd.k \in {"opt", "exists"}    -> NOpt(nd.ch[1])
    [] nd.k \in {"plus", "loop"}     -> Many(N(nd.ch[1])) \o "+"
    [] nd.k = "star"                 -> Many(N(nd.ch[1])) \o "*"
    [] nd.k = "split" -> N(nd.ch[1]) \o " " \o Many(N(nd.ch[2]) \o " " \o N(nd.ch[1])) \o "*"
    [] nd.k = "punct" -> Listed(N(nd.ch[1]), N(nd.ch[2])) \o "+"
    [] nd.k \in {"tuple", "recover"} -> NTuple(nd.ch, 1)
    [] Under(i)                      -> N(nd.ch[1])

Names(i) ==
  LET nd == Nodes[i]
      e  == <<Empty, Empty>>
      A  == nd.ch[1]  B == nd.ch[2]
      PlusNames(w, t) == {<<Plus(w), Many(t) \o "+">>, <<Opt(Plus(w)), Many(t) \o "*">>, e}
  IN
  CASE nd.k \in {"tok", "struct", "enum", "tuple", "recover"} -> {<<Key(i), N(i)>>}
    [] nd.k \in {"opt", "exists"} -> {<<Key(i), N(i)>>, e}
    [] nd.k \in {"plus", "loop", "star"} -> PlusNames(As(A), N(A))
    [] nd.k = "split" ->
         {<<Key(i), N(i)>>, <<Pair(As(B), As(A)), N(B) \o " " \o N(A)>>} \cup PlusNames(Pair(As(B), As(A)), N(B) \o " " \o N(A))
    [] nd.k = "punct" ->
         LET list == Listed(N(A), N(B))
             tail == N(B) \o " " \o list \o "*"
             tk   == Pair(As(B), Opt(Key(i))) IN
         {<<Key(i), list \o "+">>, <<Opt(Key(i)), list \o "*">>, <<tk, tail>>, <<Opt(tk), "(" \o tail \o ")?">>, e}
    [] Under(i) -> {}

NameOf == TLCEval([g \in DOMAIN Roots |->
  LET S == TLCEval(UNION {Names(i) : i \in Meta[g].nodes}) IN
  TLCEval([x \in DOMAIN Meta[g].P |-> (CHOOSE s \in S : s[1] = x)[2]])])
NamesOk == \A g \in DOMAIN Roots :
  LET S == UNION {Names(i) : i \in Meta[g].nodes} IN
  {s[1] : s \in S} = DOMAIN Meta[g].P /\ Cardinality(S) = Cardinality(DOMAIN Meta[g].P)

-----------------------------------------------------------------------------
LexAll(lex) == UNION {AllOf(lex, lex.types[j]) : j \in DOMAIN lex.types}
Shown(lex, S) ==
  UNION {IF Other(ty) \in S THEN {ty} ELSE {"\"" \o l \o "\"" : l \in {l \in LitsOf(lex, ty) : Fixed(ty, l) \in S}} : ty \in Ran(lex.types)}

FirstIs(M, x, o)  == Ran(o.first) = M.F[x] /\ o.eps = (x \in M.N)
FollowIs(M, x, o) == Ran(o.follow) \cup (IF o.eof THEN {Eof} ELSE {}) = M.Fo[x]
JumpIs(M, x, o, probes) ==
  IF M.P[x].k # "union" THEN \A j \in DOMAIN o.jump : o.jump[j] = 0
  ELSE \A j \in DOMAIN o.jump :
         LET a == IF j > Len(probes) THEN Eof ELSE probes[j]
             want == Chosen(M.P, M.N, M.F, x, a)
         IN IF a \in M.F[x] \cup (IF x \in M.N THEN M.Fo[x] ELSE {}) THEN o.jump[j] = want ELSE o.jump[j] \in {0, want}

(* The observed constructs are the ones of the grammar: as many, and under *)
(* each name the same sets (if they go by other names: each set somewhere).*)
Agree(M, nm, sets, Is(_, _)) ==
  LET named == {sets[j].name : j \in DOMAIN sets} = {nm[x] : x \in DOMAIN M.P}
      Same(x, o) == (named => o.name = nm[x]) /\ Is(x, o) IN
  /\ Len(sets) = Cardinality(DOMAIN M.P)
  /\ \A x \in DOMAIN M.P : \E j \in DOMAIN sets : Same(x, sets[j])
  /\ \A j \in DOMAIN sets : \E x \in DOMAIN M.P : Same(x, sets[j])

Labels(c) ==
  LET M  == Meta[c.g]
      m  == [P |-> M.P, N |-> M.N, F |-> M.F, Fo |-> M.Fo, name |-> NameOf[c.g]]
      R  == Ran(c.runs)
      ok == {r \in R : r.v = "ok"}
      FirstHere(x, o)  == FirstIs(M, x, o)
      FollowHere(x, o) == FollowIs(M, x, o)
      JumpHere(x, o)   == JumpIs(M, x, o, c.probes)
      Repr(S) == Shown(M.lex, S)
  IN UNION {
      IF \E r \in R : r.v \notin {"ok", "leftrec", "ff", "seq", "fol"} THEN {"died"} ELSE {},
      IF Ran(c.probes) # LexAll(M.lex) THEN {"spec-probes"} ELSE {},
      IF Pid = "C01" /\ \E r \in R : (r.v = "ok") # M.ll1 THEN {"verdict"} ELSE {},
      IF Pid = "C04" /\ \E r \in R : ~LeftRecOk(m, r) THEN {"leftrec"} ELSE {},
      IF Pid = "C02" /\ \E r \in ok : ~Agree(M, m.name, r.sets, FirstHere) THEN {"first"} ELSE {},
      IF Pid = "C03" /\ \E r \in ok : ~Agree(M, m.name, r.sets, FollowHere) THEN {"follow"} ELSE {},
      IF Pid = "C05" /\ \E r \in R : ~Truthful(m, r, Repr) THEN {"report"} ELSE {},
      IF Pid = "C05" /\ ~c.says THEN {"text"} ELSE {},
      IF Pid = "C06" /\ \E r \in ok : ~Agree(M, m.name, r.sets, JumpHere) THEN {"jump"} ELSE {},
      IF Pid = "C07" /\ Cardinality(R) > 1 THEN {"order"} ELSE {}}

Show(c, bad) ==
  bad = {} \/ PrintT(<<"MISMATCH", c.id, bad,
     LET M == Meta[c.g] IN
     ToJson([ll1 |-> M.ll1, leftrec |-> M.leftrec, name |-> NameOf[c.g], nullable |-> M.N, first |-> M.F, follow |-> M.Fo])>>)

ASSUME NamesOk

VARIABLES caseNo, verdict
Init == /\ caseNo \in 1..Chains /\ verdict = Labels(Cases[caseNo]) /\ Show(Cases[caseNo], verdict)
Next == /\ caseNo + Chains <= NCase
        /\ caseNo' = caseNo + Chains
        /\ verdict' = Labels(Cases[caseNo'])
        /\ Show(Cases[caseNo'], verdict')
Spec == Init /\ [][Next]_<<caseNo, verdict>>
Conforms == verdict = {}
=============================================================================
