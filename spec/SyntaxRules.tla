---------------------------- MODULE SyntaxRules ----------------------------
(***************************************************************************)
(* Which definitions of syntax tree types and helper nodes are valid, and  *)
(* what a valid one provides.  A definition is                             *)
(*   [derive : "syntax", "span" or "node",                                 *)
(*    shape  : "struct", "enum" or "union",                                *)
(*    attrs  : its teleparse attributes, each a sequence of items,         *)
(*    alts   : <<[style, fields, value, attrs]>>, one for a struct]        *)
(* style: "named", "unnamed" or "unit"; value: has it a discriminant; a    *)
(* field is [kind, lex, first, more, attrs] with                           *)
(*   kind : "part" (a piece of syntax), "span" (something with a span),    *)
(*          "node" (a Node), "plain" (neither, has a default) or           *)
(*          "nodefault" (neither);                                         *)
(*   lex  : the lexicon of a part, first : the terminals it starts with.   *)
(* An item of an attribute is [form, name, args]: form "list", "flag",     *)
(* "value", or "none" for an attribute that is not a list at all.          *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets

LOCAL Elems(s) == {s[j] : j \in DOMAIN s}
Types(lex) == CASE lex = "A" -> {"W", "N", "X", "Y"} [] lex = "B" -> {"V", "Z"} [] OTHER -> {}

Fields(d) == UNION {Elems(d.alts[j].fields) : j \in DOMAIN d.alts}
(* the lexicon of a definition is that of its first part *)
Lex(d) == IF d.alts = <<>> \/ d.alts[1].fields = <<>> THEN "" ELSE d.alts[1].fields[1].lex

BadPlace(attrs, lex) ==
  UNION {
    IF Len(attrs) > 1 THEN {"several attributes"} ELSE {},
    UNION {UNION {
      IF \E j \in DOMAIN a : a[j].form # "list" THEN {"form of attribute"} ELSE {},
      IF Cardinality({j \in DOMAIN a : a[j].form = "list" /\ a[j].name = "semantic"}) > 1 THEN {"repeated semantic"} ELSE {},
      IF \E j \in DOMAIN a : a[j].form = "list" /\ ~(Elems(a[j].args) \subseteq Types(lex)) THEN {"unknown type"} ELSE {}}
      : a \in Elems(attrs)}}

Flag(d, name) == \E a \in Elems(d.attrs) : \E j \in DOMAIN a : a[j].form = "flag" /\ a[j].name = name
BadItem(d) ==
  UNION {
    IF Len(d.attrs) > 1 THEN {"several attributes"} ELSE {},
    IF \E a \in Elems(d.attrs) : \E j \in DOMAIN a : a[j].form # "flag" \/ a[j].name \notin {"root", "no_test"} THEN {"unknown flag"} ELSE {},
    IF Flag(d, "no_test") /\ ~Flag(d, "root") THEN {"no_test without root"} ELSE {}}

BadSyntax(d) ==
  UNION {
    BadItem(d),
    IF d.shape = "union" THEN {"union"} ELSE {},
    IF d.shape = "struct" /\ d.alts[1].fields = <<>> THEN {"no field"} ELSE {},
    IF d.shape = "enum" /\ d.alts = <<>> THEN {"no variant"} ELSE {},
    IF d.shape = "enum" /\ \E j \in DOMAIN d.alts : d.alts[j].style # "unnamed" \/ Len(d.alts[j].fields) # 1 THEN {"not one unnamed field"} ELSE {},
    IF d.shape = "enum" /\ \E j \in DOMAIN d.alts : d.alts[j].value THEN {"discriminant"} ELSE {},
    IF \E f \in Fields(d) : f.kind # "part" THEN {"not syntax"} ELSE {},
    IF Cardinality({f.lex : f \in {f \in Fields(d) : f.kind = "part"}}) > 1 THEN {"two lexicons"} ELSE {},
    UNION {BadPlace(IF d.shape = "enum" THEN d.alts[j].attrs ELSE d.alts[j].fields[k].attrs, Lex(d))
           : <<j, k>> \in UNION {{<<j, k>> : k \in DOMAIN d.alts[j].fields} : j \in DOMAIN d.alts}}}

BadSpan(d) ==
  UNION {
    IF d.shape = "union" THEN {"union"} ELSE {},
    IF \E j \in DOMAIN d.alts : d.alts[j].fields = <<>> THEN {"no field"} ELSE {},
    IF \E j \in DOMAIN d.alts : d.alts[j].fields # <<>> /\ d.alts[j].fields[1].kind \notin {"span", "node", "part"} THEN {"first field has no span"} ELSE {}}

BadNode(d) ==
  IF d.shape # "struct" THEN {"not a struct"}
  ELSE IF d.alts[1].fields = <<>> THEN {"no field"}
  ELSE UNION {
    IF d.alts[1].fields[1].kind # "node" THEN {"first field is not a node"} ELSE {},
    IF \E j \in 2..Len(d.alts[1].fields) : d.alts[1].fields[j].kind \in {"nodefault", "part", "node"} THEN {"field without default"} ELSE {}}

Broken(d) == CASE d.derive = "syntax" -> BadSyntax(d) [] d.derive = "span" -> BadSpan(d) [] OTHER -> BadNode(d)
Valid(d) == Broken(d) = {}

---------------------------------------------------------------------------
(* what a valid definition provides *)
IsRoot(d) == d.derive = "syntax" /\ Flag(d, "root")
HasTest(d) == IsRoot(d) /\ ~Flag(d, "no_test")
(* parts are never empty, so what conflicts is two alternatives starting   *)
(* alike, and a repetition before a part that starts like its items        *)
IsLL1(d) ==
  IF d.shape = "enum"
  THEN \A j, k \in DOMAIN d.alts : j # k => Elems(d.alts[j].fields[1].first) \cap Elems(d.alts[k].fields[1].first) = {}
  ELSE LET fs == d.alts[1].fields IN
       \A j \in 1..Len(fs) - 1 : Elems(fs[j].more) \cap Elems(fs[j + 1].first) = {}

(* the span of a value of a derived type, given the spans of its fields: a *)
(* helper has the span of what it stores first                             *)
SpanOf(spans) == spans[1]

(* A helper made from a node holds the node first and defaults otherwise;  *)
(* as a value it is the node's value, to read, to change and to take out.  *)
Helper(node, nfields) == [lo |-> node.lo, hi |-> node.hi, value |-> node.value, rest |-> [j \in 1..nfields - 1 |-> 0]]
Changed(h, v) == [h EXCEPT !.value = v]
=============================================================================
