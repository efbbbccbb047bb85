"""Lexicon definitions: Rust source, and the pattern terms the specification (Lexing.tla)
gives meaning to.  A small regex front end turns the declared patterns into terms."""

ALPHABET = [chr(c) for c in range(32, 127)] + ["\n", "\t", "é", "→", "、", "ü", "😀", "日"]
SPACE = [" ", "\t", "\n", "\r", "\x0b", "\x0c", "\x85", "\u00a0", "\u2028", "\u3000"]


# ---------------------------------------------------------------- patterns
def parse_regex(src):
    """Subset: literals, escapes, classes, groups, | * + ?, dot."""
    pos = 0

    def peek():
        return src[pos] if pos < len(src) else ""

    def alt():
        nonlocal pos
        ps = [cat()]
        while peek() == "|":
            pos += 1
            ps.append(cat())
        return ps[0] if len(ps) == 1 else {"k": "alt", "ps": ps}

    def cat():
        nonlocal pos
        ps = []
        while pos < len(src) and peek() not in "|)":
            ps.append(rep())
        # join neighbouring literals
        out = []
        for p in ps:
            if p["k"] == "lit" and out and out[-1]["k"] == "lit":
                out[-1] = {"k": "lit", "cs": out[-1]["cs"] + p["cs"]}
            else:
                out.append(p)
        if len(out) == 1:
            return out[0]
        return {"k": "cat", "ps": out}

    def rep():
        nonlocal pos
        p = atom()
        while peek() != "" and peek() in "*+?":
            p = {"k": {"*": "star", "+": "plus", "?": "opt"}[peek()], "ps": [p]}
            pos += 1
        return p

    def atom():
        nonlocal pos
        c = peek()
        pos += 1
        if c == "(":
            if src.startswith("?:", pos):
                pos += 2
            p = alt()
            assert peek() == ")"
            pos += 1
            # a group is not merged with the literals around it
            return p if p["k"] != "lit" else {"k": "cat", "ps": [p]}
        if c == "[":
            neg = peek() == "^"
            if neg:
                pos += 1
            cs = []
            while peek() != "]":
                a = peek()
                pos += 1
                if a == "\\":
                    cs += esc()
                    continue
                if peek() == "-" and src[pos + 1] != "]":
                    b = src[pos + 1]
                    pos += 2
                    cs += [chr(x) for x in range(ord(a), ord(b) + 1)]
                else:
                    cs.append(a)
            pos += 1
            return {"k": "notin" if neg else "in", "cs": cs}
        if c == "\\":
            e = esc()
            return {"k": "lit", "cs": e} if len(e) == 1 else {"k": "in", "cs": e}
        if c == ".":
            return {"k": "notin", "cs": ["\n"]}
        return {"k": "lit", "cs": [c]}

    def esc():
        nonlocal pos
        c = peek()
        pos += 1
        if c == "s":
            return SPACE
        if c == "d":
            return list("0123456789")
        if c == "w":
            return [x for x in ALPHABET if x.isalnum() or x == "_"]
        if c == "n":
            return ["\n"]
        if c == "t":
            return ["\t"]
        return [c]

    p = alt()
    assert pos == len(src), src
    return p


def lit(s):
    return {"k": "lit", "cs": list(s)}


def priority(p):
    """How the lexer generator ranks patterns that match the same text."""
    k = p["k"]
    if k == "lit":
        return 2 * len("".join(p["cs"]).encode())
    if k in ("in", "notin"):
        return 1 if len(p["cs"]) != 1 or k == "notin" else 2 * len(p["cs"][0].encode())
    if k == "cat":
        return sum(priority(x) for x in p["ps"])
    if k == "alt":
        return min(priority(x) for x in p["ps"])
    if k == "plus":
        return priority(p["ps"][0])
    return 0


# ---------------------------------------------------------------- lexicons
class Lexicon:
    """types: [(name, [regex...], [(terminal, literal or None)...])]"""

    def __init__(self, name, types, ignore):
        self.name, self.types, self.ignore = name, types, ignore
        self.terminals = {}
        for ty, _, ts in types:
            for t, l in ts:
                self.terminals[t] = (ty, l)

    def lexed(self, ty):
        for n, rs, ts in self.types:
            if n == ty:
                return bool(rs) or (bool(ts) and all(l is not None for _, l in ts))

    def rust(self, enum="Ty", attrs=""):
        o = []
        if self.ignore:
            ig = ", ".join(rstr(r) for r in self.ignore)
            o.append(f"#[derive_lexicon]\n#[teleparse(ignore({ig}){attrs})]")
        else:
            o.append("#[derive_lexicon]" + (f"\n#[teleparse({attrs.lstrip(', ')})]" if attrs else ""))
        o.append(f"pub enum {enum} {{")
        for n, rs, ts in self.types:
            a = []
            if rs:
                a.append("regex(" + ", ".join(rstr(r) for r in rs) + ")")
            if ts:
                a.append("terminal(" + ", ".join(t if l is None else f"{t} = {rstr(l)}" for t, l in ts) + ")")
            o.append((f"    #[teleparse({', '.join(a)})]\n" if a else "") + f"    {n},")
        o.append("}")
        return "\n".join(o)

    def rules(self):
        out = []
        for n, rs, ts in self.types:
            if rs:
                for r in rs:
                    p = parse_regex(r)
                    out.append({"ty": n, "prio": priority(p), "p": p})
            elif ts and all(l is not None for _, l in ts):
                for _, l in ts:
                    out.append({"ty": n, "prio": priority(lit(l)), "p": lit(l)})
        for r in self.ignore:
            p = parse_regex(r)
            out.append({"ty": "", "prio": priority(p), "p": p})
        return out

    def lits(self):
        out = []
        for n, _, ts in self.types:
            for _, l in ts:
                if l is not None and [n, l] not in out:
                    out.append([n, l])
        return out

    def spec(self):
        # order: how terminals are listed in messages
        order = [["<empty>", "<e>"]] + [[n, n + ":"] for n, _, _ in self.types] + \
                [['"' + l + '"', n + ":" + l] for n, l in self.lits()]
        order.sort(key=lambda x: x[0].encode())
        return {"name": self.name, "types": [n for n, _, _ in self.types],
                "ext": [n for n, _, ts in self.types if not ts], "lits": self.lits(),
                "order": order, "rules": self.rules()}


def rstr(s):
    return '"' + s.replace("\\", "\\\\").replace('"', '\\"').replace("\n", "\\n").replace("\t", "\\t") + '"'


LA = Lexicon("LA", [
    ("Com", ["#[a-z]*"], []),
    ("S1", [], []),
    ("Id", ["[a-z][a-z0-9]*"], [("Id", None), ("KwLet", "let"), ("KwIf", "if")]),
    ("Num", ["[0-9]+"], [("Num", None)]),
    ("Op", [], [("Add", "+"), ("Mul", "*"), ("Eq", "="), ("Arrow", "=>")]),
    ("S2", [], []),
    ("Pun", [], [("Comma", ","), ("Semi", ";"), ("Colon", ":"), ("Dot", ".")]),
    ("Par", [], [("Lp", "("), ("Rp", ")"), ("Lb", "{"), ("Rb", "}")]),
    ("S3", [], []),
], [r"\s+"])

LB = Lexicon("LB", [
    ("Word", ["[a-zé]+"], [("Word", None), ("KwE", "é")]),
    ("Sym", [], [("To", "→"), ("Bang", "!"), ("BangEq", "!=")]),
    ("Mark", [], []),
    ("Sep", [], [("Ten", "、"), ("Bar", "|")]),
    ("Skip", ["<[a-z]?>"], []),
    ("Digit", ["[0-9]+"], [("Digit", None), ("Zero", "0")]),
], ["[ \n]+", "~[^\n]*"])

# more types than a byte has bits; semantic types beyond bit 8, 16 and 32
LC = Lexicon("LC", [("A", [], [("Ta", "a")]), ("B", [], [("Tb", "b")])] +
             [(f"U{i}", [], []) for i in range(2, 9)] + [("C", [], [("Tc", "c")])] +
             [(f"U{i}", [], []) for i in range(10, 18)] + [("D", ["d+"], [("Td", None)])] +
             [(f"U{i}", [], []) for i in range(19, 35)] + [("E", [], [("Te", "e")]), ("Note", ["%"], [])], [" "])
# many fixed texts, texts over several lines, signs, a type with two patterns
LD = Lexicon("LD", [
    ("Note", ["/[*][^*]*[*]/"], []),
    ("Kw", [], [(f"K{i}", f"KEYWORD{i:02}") for i in range(40)]),
    ("Str", ['"[^"]*"'], [("Str", None), ("StrE", '""')]),
    ("Int", ["[+-]*[0-9]+"], [("Int", None), ("Zero", "0")]),
    ("Pair", ["[a-c]+", "_[0-9]"], [("Pair", None)]),
    ("T1", [], []),
    ("Pun", [], [("Com", ","), ("Sem", ";"), ("Op", "("), ("Cl", ")"), ("Dot", "."), ("Dots", "..."), ("At", "@")]),
], [r"\s+"])
LEX = [LA, LB, LC, LD]
