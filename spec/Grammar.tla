------------------------------ MODULE Grammar ------------------------------
(***************************************************************************)
(* Context-free grammars in the shape teleparse builds them, and what      *)
(* LL(1) means for them.  Everything here is declarative: least fixpoints  *)
(* of the textbook equations, not a transcription of the solver.           *)
(*                                                                         *)
(* P     : function from constructs to productions                         *)
(*         [k |-> "term",  ch |-> <<>>,     set |-> terminals it matches]  *)
(*         [k |-> "eps",   ch |-> <<>>,     set |-> {}]                    *)
(*         [k |-> "seq",   ch |-> <<...>>,  set |-> {}]                    *)
(*         [k |-> "union", ch |-> <<...>>,  set |-> {}]                    *)
(* A terminal without fixed text denotes the set of all terminals of its   *)
(* token type (each known text, plus one standing for every other text).   *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC

Ran(s) == {s[i] : i \in DOMAIN s}

-----------------------------------------------------------------------------
(* Constructs reachable from the root: the only ones a root's grammar has. *)
RECURSIVE ReachIter(_, _)
ReachIter(P, R) ==
  LET M == R \cup UNION {Ran(P[x].ch) : x \in R}
  IN IF M = R THEN R ELSE ReachIter(P, M)
Reach(P, root) == ReachIter(P, {root})

Restrict(P, R) == [x \in R |-> P[x]]

-----------------------------------------------------------------------------
(* Which constructs derive the empty string.                               *)
NullStep(P, N) ==
  {x \in DOMAIN P :
     \/ P[x].k = "eps"
     \/ P[x].k = "seq"   /\ \A i \in DOMAIN P[x].ch : P[x].ch[i] \in N
     \/ P[x].k = "union" /\ \E i \in DOMAIN P[x].ch : P[x].ch[i] \in N}
RECURSIVE NullIter(_, _)
NullIter(P, N) == LET M == NullStep(P, N) IN IF M = N THEN N ELSE NullIter(P, M)
Nullable(P) == NullIter(P, {})

(* Positions of a production that can come first: everything before is     *)
(* possibly empty.                                                         *)
LeftPos(P, N, x) ==
  CASE P[x].k = "seq"   -> {i \in DOMAIN P[x].ch : \A j \in 1..(i-1) : P[x].ch[j] \in N}
    [] P[x].k = "union" -> DOMAIN P[x].ch
    [] OTHER            -> {}
LeftKids(P, N, x) == {P[x].ch[i] : i \in LeftPos(P, N, x)}

(* FIRST without the empty marker (that is Nullable).                      *)
FirstStep(P, L, F) ==
  [x \in DOMAIN P |-> P[x].set \cup UNION {F[y] : y \in L[x]}]
RECURSIVE FirstIter(_, _, _)
FirstIter(P, L, F) == LET G == TLCEval(FirstStep(P, L, F)) IN IF G = F THEN F ELSE FirstIter(P, L, G)
First(P, N) ==
  LET L == TLCEval([x \in DOMAIN P |-> LeftKids(P, N, x)])
  IN FirstIter(P, L, TLCEval([x \in DOMAIN P |-> {}]))

(* FOLLOW; eof is the marker for the end of the input.                     *)
(* What follows position i of sequence x inside x itself:                  *)
After(P, N, F, x, i) ==
  UNION {F[P[x].ch[j]] : j \in {j \in (i+1)..Len(P[x].ch) :
                                  \A m \in (i+1)..(j-1) : P[x].ch[m] \in N}}
RestNull(P, N, x, i) == \A m \in (i+1)..Len(P[x].ch) : P[x].ch[m] \in N
FollowBase(P, N, F, root, eof) ==
  [y \in DOMAIN P |->
     (IF y = root THEN {eof} ELSE {})
     \cup UNION {After(P, N, F, x, i) :
                   <<x, i>> \in {<<x, i>> \in UNION {{x} \X (DOMAIN P[x].ch) : x \in {x \in DOMAIN P : P[x].k = "seq"}} :
                                   P[x].ch[i] = y}}]
FollowUp(P, N) ==
  [y \in DOMAIN P |->
     {x \in DOMAIN P :
        \E i \in DOMAIN P[x].ch :
           /\ P[x].ch[i] = y
           /\ (P[x].k = "union" \/ RestNull(P, N, x, i))}]
RECURSIVE FollowIter(_, _)
FollowIter(U, Fo) ==
  LET G == TLCEval([y \in DOMAIN Fo |-> Fo[y] \cup UNION {Fo[x] : x \in U[y]}])
  IN IF G = Fo THEN Fo ELSE FollowIter(U, G)
Follow(P, N, F, root, eof) == FollowIter(TLCEval(FollowUp(P, N)), TLCEval(FollowBase(P, N, F, root, eof)))

-----------------------------------------------------------------------------
(* Left recursion: a construct that can begin with itself.                 *)
RECURSIVE LeftReachIter(_, _)
LeftReachIter(L, R) ==
  LET M == R \cup UNION {L[x] : x \in R} IN IF M = R THEN R ELSE LeftReachIter(L, M)
LeftRecursive(P, N) ==
  LET L == TLCEval([x \in DOMAIN P |-> LeftKids(P, N, x)])
  IN {x \in DOMAIN P : x \in LeftReachIter(L, L[x])}

(* The same through first parts only: recursion that is not hidden behind  *)
(* possibly-empty parts.                                                   *)
HeadKids(P, x) ==
  CASE P[x].k = "seq"   -> IF P[x].ch = <<>> THEN {} ELSE {P[x].ch[1]}
    [] P[x].k = "union" -> Ran(P[x].ch)
    [] OTHER            -> {}
OpenlyLeftRecursive(P) ==
  LET L == TLCEval([x \in DOMAIN P |-> HeadKids(P, x)])
  IN {x \in DOMAIN P : x \in LeftReachIter(L, L[x])}

(* Conflicts.                                                              *)
AltConflicts(P, N, F) ==
  {x \in DOMAIN P : P[x].k = "union" /\
     \E i, j \in DOMAIN P[x].ch : i < j /\
        \/ F[P[x].ch[i]] \cap F[P[x].ch[j]] # {}
        \/ P[x].ch[i] \in N /\ P[x].ch[j] \in N}
EmptyConflicts(P, N, F, Fo) == {x \in N : F[x] \cap Fo[x] # {}}

IsLL1(P, N, F, Fo) ==
  /\ LeftRecursive(P, N) = {}
  /\ AltConflicts(P, N, F) = {}
  /\ EmptyConflicts(P, N, F, Fo) = {}

(* The textbook formulation: the prediction sets of the alternatives of    *)
(* every choice are pairwise disjoint.  IsLL1 <=> Predictive for grammars  *)
(* without left recursion is checked by TLC on every grammar enumerated.   *)
Predict(P, N, F, Fo, x, i) ==
  F[P[x].ch[i]] \cup (IF P[x].ch[i] \in N THEN Fo[x] ELSE {})
Predictive(P, N, F, Fo) ==
  \A x \in DOMAIN P : P[x].k = "union" =>
     \A i, j \in DOMAIN P[x].ch : i < j =>
        /\ Predict(P, N, F, Fo, x, i) \cap Predict(P, N, F, Fo, x, j) = {}
        /\ ~(P[x].ch[i] \in N /\ P[x].ch[j] \in N)

(* The one alternative a choice must take on lookahead a (0: none).        *)
Chosen(P, N, F, x, a) ==
  LET C == {i \in DOMAIN P[x].ch : a \in F[P[x].ch[i]]}
      E == {i \in DOMAIN P[x].ch : P[x].ch[i] \in N}
  IN IF C # {} THEN CHOOSE i \in C : \A j \in C : i <= j
     ELSE IF E # {} THEN CHOOSE i \in E : \A j \in E : i <= j
     ELSE 0
=============================================================================
