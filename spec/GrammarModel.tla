---------------------------- MODULE GrammarModel ----------------------------
(***************************************************************************)
(* Module Grammar checked against derivations.  TLC builds every grammar   *)
(* of NTS constructs over two terminals, the empty construct and each      *)
(* other - one production per step - and asks of each what the equations   *)
(* of Grammar mean in terms of derived strings and sentential forms.       *)
(***************************************************************************)
EXTENDS Grammar, IOUtils, Integers

Nts    == atoi(IOEnv.NTS)
Width  == atoi(IOEnv.WIDTH)
Depth  == atoi(IOEnv.DEPTH)
Letter == {1, 2}
Eof    == 0
Cut    == 9

Ids == 1..(3 + Nts)
Base == <<[k |-> "term", ch |-> <<>>, set |-> {1}], [k |-> "term", ch |-> <<>>, set |-> {2}], [k |-> "eps", ch |-> <<>>, set |-> {}]>>
Menu ==
  {[k |-> "seq", ch |-> s, set |-> {}] : s \in UNION {[1..n -> Ids] : n \in 1..Width}}
  \cup {[k |-> "union", ch |-> s, set |-> {}] : s \in [1..2 -> Ids]}
Root == 4

VARIABLE picked
Init == picked = <<>>
Next == /\ Len(picked) < Nts
        /\ \E p \in Menu : picked' = Append(picked, p)
Spec == Init /\ [][Next]_picked

-----------------------------------------------------------------------------
(* Prefixes of length up to k of what a construct derives, a prefix that   *)
(* is not all of a string ending in Cut; least fixpoint from "nothing is   *)
(* known yet".                                                             *)
Trunc(w, k) == IF Len(w) > k THEN Append(SubSeq(w, 1, k), Cut) ELSE w
Open(w) == w # <<>> /\ w[Len(w)] = Cut
Join(W, V, k) == {IF Open(w) THEN w ELSE Trunc(w \o v, k) : w \in W, v \in V}
RECURSIVE JoinAll(_, _, _)
JoinAll(D, ch, k) == IF ch = <<>> THEN {<<>>} ELSE Join(D[ch[1]], JoinAll(D, Tail(ch), k), k)
PrefStep(P, D, k) ==
  [x \in DOMAIN P |->
     CASE P[x].k = "term"  -> {<<a>> : a \in P[x].set}
       [] P[x].k = "eps"   -> {<<>>}
       [] P[x].k = "seq"   -> JoinAll(D, P[x].ch, k)
       [] P[x].k = "union" -> UNION {D[P[x].ch[i]] : i \in DOMAIN P[x].ch}]
RECURSIVE PrefIter(_, _, _)
PrefIter(P, D, k) ==
  LET E == TLCEval(LET S == PrefStep(P, D, k) IN [x \in DOMAIN P |-> D[x] \cup S[x]]) IN IF E = D THEN D ELSE PrefIter(P, E, k)
Prefixes(P, k) == PrefIter(P, TLCEval([x \in DOMAIN P |-> {<<Cut>>}]), k)

(* What can stand to the right of a construct in a sentential form of the  *)
(* root, as far as the next terminal depends on it: up to the first that   *)
(* cannot be empty, nothing twice.                                         *)
RECURSIVE Norm(_, _)
Norm(N, b) ==
  IF b = <<>> THEN <<>>
  ELSE IF Head(b) \notin N THEN <<Head(b)>>
  ELSE <<Head(b)>> \o SelectSeq(Norm(N, Tail(b)), LAMBDA y : y # Head(b))
CtxStep(P, N, C) ==
  [y \in DOMAIN P |-> C[y] \cup
     UNION {UNION {{Norm(N, (IF P[x].k = "seq" THEN SubSeq(P[x].ch, i + 1, Len(P[x].ch)) ELSE <<>>) \o b) : b \in C[x]}
                   : i \in {i \in DOMAIN P[x].ch : P[x].ch[i] = y}} : x \in DOMAIN P}]
RECURSIVE CtxIter(_, _, _)
CtxIter(P, N, C) == LET D == TLCEval(CtxStep(P, N, C)) IN IF D = C THEN C ELSE CtxIter(P, N, D)
Contexts(P, N) == CtxIter(P, N, TLCEval([y \in DOMAIN P |-> IF y = Root THEN {<<>>} ELSE {}]))
Starts(D, x) == {w[1] : w \in {w \in D[x] : w # <<>> /\ w[1] # Cut}}

(* All derivations of strings of up to n terminals, as <<string, tree>>;   *)
(* only for grammars without left recursion.                               *)
RECURSIVE Trees(_, _, _), TreesOf(_, _, _)
Trees(P, x, n) ==
  CASE P[x].k = "term"  -> {<<<<a>>, <<x>>>> : a \in {a \in P[x].set : n >= 1}}
    [] P[x].k = "eps"   -> {<<<<>>, <<x>>>>}
    [] P[x].k = "seq"   -> {<<d[1], <<x>> \o d[2]>> : d \in TreesOf(P, P[x].ch, n)}
    [] P[x].k = "union" -> UNION {{<<d[1], <<x, 10 + i>> \o d[2]>> : d \in Trees(P, P[x].ch[i], n)} : i \in DOMAIN P[x].ch}
TreesOf(P, ch, n) ==
  IF ch = <<>> THEN {<<<<>>, <<>>>>}
  ELSE UNION {{<<d[1] \o e[1], d[2] \o e[2]>> : e \in TreesOf(P, Tail(ch), n - Len(d[1]))} : d \in Trees(P, ch[1], n)}

(* The predictive recogniser: where it stands after x, or -1.              *)
RECURSIVE Recognise(_, _, _, _, _, _), RecogniseAll(_, _, _, _, _, _)
Recognise(P, N, F, x, w, p) ==
  CASE P[x].k = "term"  -> IF p < Len(w) /\ w[p + 1] \in P[x].set THEN p + 1 ELSE -1
    [] P[x].k = "eps"   -> p
    [] P[x].k = "seq"   -> RecogniseAll(P, N, F, P[x].ch, w, p)
    [] P[x].k = "union" -> LET i == Chosen(P, N, F, x, IF p < Len(w) THEN w[p + 1] ELSE Eof)
                           IN IF i = 0 THEN -1 ELSE Recognise(P, N, F, P[x].ch[i], w, p)
RecogniseAll(P, N, F, ch, w, p) ==
  IF ch = <<>> THEN p
  ELSE LET q == Recognise(P, N, F, ch[1], w, p) IN IF q < 0 THEN -1 ELSE RecogniseAll(P, N, F, Tail(ch), w, q)

Words == UNION {[1..n -> Letter] : n \in 0..Depth}

-----------------------------------------------------------------------------
G == LET Q == [x \in Ids |-> IF x <= 3 THEN Base[x] ELSE picked[x - 3]]
         P == TLCEval(Restrict(Q, Reach(Q, Root)))
         N == TLCEval(Nullable(P))
         F == TLCEval(First(P, N))
     IN [P |-> P, N |-> N, F |-> F, Fo |-> TLCEval(Follow(P, N, F, Root, Eof))]
Whole == Len(picked) = Nts

EquationsMeanDerivations ==
  Whole => LET g == TLCEval(G)
               D == TLCEval(Prefixes(g.P, 2))
               C == TLCEval(Contexts(g.P, g.N))
           IN \A x \in DOMAIN g.P :
                /\ (x \in g.N) = (<<>> \in D[x])
                /\ g.F[x] = Starts(D, x)
                /\ g.Fo[x] = UNION {UNION {Starts(D, b[j]) : j \in DOMAIN b} \cup (IF Ran(b) \subseteq g.N THEN {Eof} ELSE {}) : b \in C[x]}

(* Left recursion: some sentential form of x begins with x again.          *)
LeftRecursionMeansRepetition ==
  Whole => LET g == TLCEval(G)
               RECURSIVE Lead(_)
               Lead(S) == LET T == S \cup UNION {LeftKids(g.P, g.N, y) : y \in S} IN IF T = S THEN S ELSE Lead(T)
           IN LeftRecursive(g.P, g.N) = {x \in DOMAIN g.P : \E y \in LeftKids(g.P, g.N, x) : x \in Lead({y})}

(* LL(1) without left recursion is the textbook condition, every string    *)
(* has one derivation, and one token of lookahead decides the language.    *)
PredictionDecides ==
  Whole => LET g == TLCEval(G) IN
           LeftRecursive(g.P, g.N) = {} =>
             /\ IsLL1(g.P, g.N, g.F, g.Fo) <=> Predictive(g.P, g.N, g.F, g.Fo)
             /\ IsLL1(g.P, g.N, g.F, g.Fo) =>
                  LET T == TLCEval(Trees(g.P, Root, Depth))
                      L == TLCEval({d[1] : d \in T})
                  IN /\ Cardinality(T) = Cardinality(L)
                     /\ \A w \in Words : (Recognise(g.P, g.N, g.F, Root, w, 0) = Len(w)) <=> w \in L
=============================================================================
