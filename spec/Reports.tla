------------------------------ MODULE Reports ------------------------------
(***************************************************************************)
(* Is a report about a rejected grammar true of the grammar?               *)
(*                                                                         *)
(* m : an analysed grammar [P, N, F, Fo, name], where name[x] is what      *)
(*     reports call construct x (different constructs may share a name)    *)
(* r : a report [v, f, terms]: its kind, the names in it, and the          *)
(*     terminals it lists, as rendered                                     *)
(* Repr(S) : how a set of terminals is rendered                            *)
(***************************************************************************)
EXTENDS Grammar

LOCAL Lists(r, shared) == shared # {} /\ Ran(r.terms) = shared /\ Len(r.terms) = Cardinality(shared)

(* A chain of constructs, each of which can begin with the next, that      *)
(* comes back to one already in it.  With shared names there must be such  *)
(* a chain behind the names: E holds the constructs the chain can be at.   *)
RECURSIVE ChainEnds(_, _, _)
ChainEnds(m, f, n) ==
  IF n = 1 THEN {x \in DOMAIN m.P : m.name[x] = f[1]}
  ELSE {y \in DOMAIN m.P : m.name[y] = f[n] /\ \E x \in ChainEnds(m, f, n - 1) : y \in LeftKids(m.P, m.N, x)}
IsPathBack(m, f) ==
  /\ Len(f) >= 2
  /\ ChainEnds(m, f, Len(f)) # {}
  /\ \E i \in 1..(Len(f) - 1) : f[i] = f[Len(f)]

TrueFF(m, r, Repr(_)) ==
  \E x \in DOMAIN m.P :
    /\ m.P[x].k = "union" /\ m.name[x] = r.f[1]
    /\ \E i, j \in DOMAIN m.P[x].ch :
         LET a == m.P[x].ch[i]  b == m.P[x].ch[j] IN
         /\ i < j /\ m.name[a] = r.f[2] /\ m.name[b] = r.f[3]
         /\ Lists(r, Repr(m.F[a] \cap m.F[b]) \cup (IF a \in m.N /\ b \in m.N THEN {"<empty>"} ELSE {}))

TrueSeq(m, r, Repr(_)) ==
  \E x \in DOMAIN m.P :
    /\ m.P[x].k = "seq" /\ m.name[x] = r.f[1]
    /\ \E i, j \in DOMAIN m.P[x].ch :
         LET a == m.P[x].ch[i]  b == m.P[x].ch[j] IN
         /\ i < j /\ m.name[a] = r.f[2] /\ m.name[b] = r.f[3]
         /\ \A k \in i..(j - 1) : m.P[x].ch[k] \in m.N
         /\ Lists(r, Repr(m.F[a] \cap m.F[b]))

TrueFol(m, r, Repr(_)) ==
  \E x \in m.N : m.name[x] = r.f[1] /\ Lists(r, Repr(m.F[x] \cap m.Fo[x]))

Truthful(m, r, Repr(_)) ==
  CASE r.v = "leftrec" -> IsPathBack(m, r.f)
    [] r.v = "ff"  -> TrueFF(m, r, Repr)
    [] r.v = "seq" -> TrueSeq(m, r, Repr)
    [] r.v = "fol" -> TrueFol(m, r, Repr)
    [] OTHER       -> TRUE

(* Left recursion that is hidden behind possibly-empty parts may instead   *)
(* be reported as the conflict it causes.                                  *)
LeftRecOk(m, r) ==
  LET LR == LeftRecursive(m.P, m.N) IN
  /\ r.v = "leftrec" => LR # {}
  /\ LR # {} => r.v # "ok"
  /\ OpenlyLeftRecursive(m.P) # {} => r.v = "leftrec"
=============================================================================
