------------------------------- MODULE Syntax -------------------------------
(***************************************************************************)
(* The grammar notation of teleparse: terminals of a lexicon, the provided *)
(* combinators and derived structs and enums, and the context-free grammar *)
(* they denote.                                                            *)
(*                                                                         *)
(* A table (one JSON document, IOEnv.GRAMMARS) gives                       *)
(*   lexicons : <<[name, types, ext, lits, order, rules]>>                 *)
(*   nodes    : <<[k, ch, ty, lit, name, sem]>>    children by index       *)
(*   roots    : <<[lex, node, name]>>                                      *)
(* Node kinds: tok opt exists plus star loop split punct recover box quote *)
(* num tuple struct enum.                                                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, Grammar

Table == TLCEval(ndJsonDeserialize(IOEnv.GRAMMARS)[1])
Lexicons == Table.lexicons
Nodes == Table.nodes
Roots == Table.roots

(* The terminals a token can be: its type with its text if that is the     *)
(* text of some terminal, else its type with "any other text".             *)
Eof == "$"
Other(ty) == ty \o ":"
Fixed(ty, lit) == ty \o ":" \o lit
LitsOf(lex, ty) == {lex.lits[j][2] : j \in {j \in DOMAIN lex.lits : lex.lits[j][1] = ty}}
AllOf(lex, ty) == {Other(ty)} \cup {Fixed(ty, l) : l \in LitsOf(lex, ty)}
ProbeOf(lex, ty, text) == IF text \in LitsOf(lex, ty) THEN Fixed(ty, text) ELSE Other(ty)
TermOf(lex, nd) == IF nd.lit = "" THEN AllOf(lex, nd.ty) ELSE {Fixed(nd.ty, nd.lit)}

(* The construct a node is: nodes that mean the same construct get the     *)
(* same key, exactly as equal Rust types are one production.  A boxed part *)
(* is its content, but what is written around the box is another construct *)
(* than the same around the content: As is how a part counts in the key.   *)
RECURSIVE Key(_), As(_), TupleKey(_, _)
Opt(k) == "opt(" \o k \o ")"
Plus(k) == "plus(" \o k \o ")"
Pair(a, b) == "(" \o a \o "," \o b \o ")"
PunctKey(t, p) == "punct(" \o t \o "," \o p \o ")"
TupleKey(ch, j) == IF j = Len(ch) THEN As(ch[j]) \o ")" ELSE As(ch[j]) \o "," \o TupleKey(ch, j + 1)
As(i) ==
  CASE Nodes[i].k = "box"               -> "box(" \o As(Nodes[i].ch[1]) \o ")"
    [] Nodes[i].k \in {"quote", "num"}  -> As(Nodes[i].ch[1])
    [] OTHER                            -> Key(i)
Key(i) ==
  LET nd == Nodes[i] IN
  CASE nd.k = "tok"                     -> "T." \o nd.name
    [] nd.k \in {"struct", "enum"}      -> "S." \o nd.name
    [] nd.k \in {"opt", "exists"}       -> Opt(As(nd.ch[1]))
    [] nd.k \in {"plus", "loop"}        -> Plus(As(nd.ch[1]))
    [] nd.k = "star"                    -> Opt(Plus(As(nd.ch[1])))
    [] nd.k = "split"   -> Pair(As(nd.ch[1]), Opt(Plus(Pair(As(nd.ch[2]), As(nd.ch[1])))))
    [] nd.k = "punct"   -> PunctKey(As(nd.ch[1]), As(nd.ch[2]))
    [] nd.k \in {"tuple", "recover"}    -> "(" \o TupleKey(nd.ch, 1)
    [] nd.k \in {"box", "quote", "num"} -> Key(nd.ch[1])

Prod(key, k, ch, set) == [key |-> key, k |-> k, ch |-> ch, set |-> set]
Empty == "()"
(* w : how the part counts in keys, k : the part                           *)
OptProds(w, k) == {Prod(Opt(w), "union", <<k, Empty>>, {}), Prod(Empty, "eps", <<>>, {})}
PlusProds(w, k) == {Prod(Plus(w), "seq", <<k, Opt(Plus(w))>>, {})} \cup OptProds(Plus(w), Plus(w))

ProdsOf(lex, i) ==
  LET nd == Nodes[i]
      C(j) == Key(nd.ch[j])
      W(j) == As(nd.ch[j])
      Kids == [j \in DOMAIN nd.ch |-> C(j)]
  IN
  CASE nd.k = "tok" -> {Prod(Key(i), "term", <<>>, TermOf(lex, nd))}
    [] nd.k \in {"struct", "tuple", "recover"} -> {Prod(Key(i), "seq", Kids, {})}
    [] nd.k = "enum"                 -> {Prod(Key(i), "union", Kids, {})}
    [] nd.k \in {"opt", "exists"}    -> OptProds(W(1), C(1))
    [] nd.k \in {"plus", "loop", "star"} -> PlusProds(W(1), C(1))
    [] nd.k = "split" ->
         LET pt == Pair(W(2), W(1)) IN
         {Prod(Key(i), "seq", <<C(1), Opt(Plus(pt))>>, {}), Prod(pt, "seq", <<C(2), C(1)>>, {})}
           \cup PlusProds(pt, pt)
    [] nd.k = "punct" ->
         LET self == Key(i)  tail == Pair(W(2), Opt(self)) IN
         {Prod(self, "seq", <<C(1), Opt(tail)>>, {}), Prod(tail, "seq", <<C(2), Opt(self)>>, {})}
           \cup OptProds(tail, tail) \cup OptProds(self, self)
    [] nd.k \in {"box", "quote", "num"} -> {}

RECURSIVE NodeReach(_)
NodeReach(R) ==
  LET M == R \cup UNION {Ran(Nodes[i].ch) : i \in R} IN IF M = R THEN R ELSE NodeReach(M)

(* Everything there is to know about the grammar of a root.                *)
Analyse(g) ==
  LET lex == Lexicons[Roots[g].lex]
      R   == NodeReach({Roots[g].node})
      S   == TLCEval(UNION {ProdsOf(lex, i) : i \in R})
      P   == TLCEval([k \in {p.key : p \in S} |->
                LET p == CHOOSE p \in S : p.key = k IN [k |-> p.k, ch |-> p.ch, set |-> p.set]])
      root == Key(Roots[g].node)
      N   == TLCEval(Nullable(P))
      F   == TLCEval(First(P, N))
      Fo  == TLCEval(Follow(P, N, F, root, Eof))
  IN [lex |-> lex, node |-> Roots[g].node, root |-> root, nodes |-> R, P |-> P, N |-> N, F |-> F, Fo |-> Fo,
      consistent |-> Cardinality(S) = Cardinality(DOMAIN P),
      leftrec |-> LeftRecursive(P, N), ll1 |-> IsLL1(P, N, F, Fo),
      key |-> TLCEval([i \in R |-> Key(i)]), many |-> TLCEval([i \in R |-> Plus(As(i))])]

Meta == TLCEval([g \in DOMAIN Roots |-> TLCEval(Analyse(g))])

(* Sanity of the table: one production per construct.                      *)
TableOk == \A g \in DOMAIN Roots : Meta[g].consistent
=============================================================================
