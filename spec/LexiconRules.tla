---------------------------- MODULE LexiconRules ----------------------------
(***************************************************************************)
(* Which lexicon definitions are valid.  A definition is                   *)
(*   [enum, generic   : is it an enum, has it type parameters,             *)
(*    ignore          : <<patterns>>,                                      *)
(*    variants        : <<[unit, lists, regex, terms]>>]                   *)
(* unit: no fields; lists: how often each attribute is given; regex: <<>>  *)
(* or << <<patterns>> >>; terms: the fixed texts of its terminals in order *)
(* as sequences of characters in a sequence, <<>> for one without, e.g.    *)
(*   << <<>>, << <<"i", "f">> >> >>.                                       *)
(* A pattern is [bad |-> is it malformed, p |-> its meaning (Lexing)].     *)
(***************************************************************************)
EXTENDS Lexing

MaxTypes == 128

Matches(pat, w) == (Len(w) + 1) \in Ends(w, pat.p, 1)
BadPattern(pat) == pat.bad \/ Matches(pat, <<>>)

Fixed(v) == {v.terms[j][1] : j \in {j \in DOMAIN v.terms : v.terms[j] # <<>>}}
Free(v) == {j \in DOMAIN v.terms : v.terms[j] = <<>>}
Patterns(v) == IF v.regex = <<>> THEN {} ELSE LRan(v.regex[1])

BrokenIn(v) ==
  UNION {
    IF ~v.unit THEN {"fields"} ELSE {},
    IF v.repeated THEN {"repeated attribute"} ELSE {},
    IF <<>> \in Fixed(v) THEN {"empty text"} ELSE {},
    IF \E i, j \in DOMAIN v.terms \ Free(v) : i # j /\ v.terms[i] = v.terms[j] THEN {"duplicate text"} ELSE {},
    IF Cardinality(Free(v)) > 1 THEN {"two terminals without text"} ELSE {},
    IF \E p \in Patterns(v) : BadPattern(p) THEN {"pattern"} ELSE {},
    IF \E p \in Patterns(v), t \in Fixed(v) : ~p.bad /\ ~Matches(p, t) THEN {"text not matched"} ELSE {},
    IF v.regex # <<>> /\ v.terms # <<>> /\ Free(v) = {} THEN {"redundant pattern"} ELSE {}}
Broken(d) ==
  UNION {BrokenIn(d.variants[j]) : j \in DOMAIN d.variants}
  \cup UNION {
    IF ~d.enum THEN {"not an enum"} ELSE {},
    IF d.generic THEN {"type parameters"} ELSE {},
    IF \E p \in LRan(d.ignore) : BadPattern(p) THEN {"ignored pattern"} ELSE {},
    IF d.enum /\ d.variants = <<>> THEN {"no types"} ELSE {},
    IF Len(d.variants) > MaxTypes THEN {"too many types"} ELSE {}}
Valid(d) == Broken(d) = {}
=============================================================================
