----------------------------- MODULE TriviaCheck -----------------------------
(***************************************************************************)
(* What lies between the tokens does not matter.  One state per pair of    *)
(* recorded runs of the real parser, on two texts with the same tokens but *)
(* different ignored, extracted and unlexable text between them: up to the *)
(* positions, measured in tokens, both runs have the same outcome, tree,   *)
(* syntax errors and marked tokens.                                        *)
(***************************************************************************)
EXTENDS Session

Cases == ndJsonDeserialize(IOEnv.OBS)
NCase == Len(Cases)
Chains == IF NCase < 512 THEN NCase ELSE 512

(* A position as the number of tokens that begin before it.                *)
Pos(X, b) == Cardinality({j \in 1..X.n : X.T[j].lo < b})
RECURSIVE Shape(_, _)
Shape(X, t) ==
  [k |-> t.k, v |-> IF t.k \in {"quote", "num"} THEN "" ELSE t.v, a |-> Pos(X, t.lo), b |-> Pos(X, t.hi),
   ch |-> [j \in DOMAIN t.ch |-> Shape(X, t.ch[j])]]
Blames(X, r) ==
  LET E == SelectSeq(GotErrs(r), LAMBDA e : e.k # "chars")
  IN [j \in DOMAIN E |-> [k |-> E[j].k, a |-> Pos(X, E[j].lo), b |-> Pos(X, E[j].hi), exp |-> E[j].exp]]
Marks(r) == [j \in DOMAIN r.toks |-> [ty |-> r.toks[j].ty, sem |-> Ran(r.toks[j].sem)]]

Compare(X, Y, a, b) ==
  UNION {
    IF a.out # b.out THEN {"outcome"} ELSE {},
    IF a.out = "tree" /\ b.out = "tree" /\ Shape(X, a.tree) # Shape(Y, b.tree) THEN {"tree"} ELSE {},
    IF Blames(X, a) # Blames(Y, b) THEN {"errors"} ELSE {},
    IF Marks(a) # Marks(b) THEN {"tokens"} ELSE {}}

Labels(c) ==
  IF c.a.end # "ok" \/ c.b.end # "ok" THEN {"died"}
  ELSE LET lex == Lexicons[c.a.lex]
           X == ReadInput(lex, c.a.in, c.a.off)
           Y == ReadInput(lex, c.b.in, c.b.off)
           texts(Z) == [j \in 1..Z.n |-> SubText(Z, Z.T[j].lo, Z.T[j].hi)]
       IN IF [j \in 1..X.n |-> X.T[j].pr] # [j \in 1..Y.n |-> Y.T[j].pr] \/ texts(X) # texts(Y) THEN {"not the same tokens"}
          ELSE UNION {Compare(X, Y, c.a.runs[k], c.b.runs[k]) : k \in DOMAIN c.a.runs}
               \cup (IF Pos(X, c.a.rest) # Pos(Y, c.b.rest) THEN {"rest"} ELSE {})
Show(c, bad) == bad = {} \/ PrintT(<<"MISMATCH", c.id, bad, "{}">>)

VARIABLES caseNo, verdict
Init == /\ caseNo \in 1..Chains /\ verdict = Labels(Cases[caseNo]) /\ Show(Cases[caseNo], verdict)
Next == /\ caseNo + Chains <= NCase
        /\ caseNo' = caseNo + Chains
        /\ verdict' = Labels(Cases[caseNo'])
        /\ Show(Cases[caseNo'], verdict')
Spec == Init /\ [][Next]_<<caseNo, verdict>>
Conforms == verdict = {}
=============================================================================
