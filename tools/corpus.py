"""Grammars and inputs for the parse checks.

A grammar text declares derived types over a lexicon:
    S Name = expr @Sem,Sem ; expr ; ...        struct
    E Name = expr | expr @Sem | ...            enum
A leading `!` makes the type a root.  Expressions: terminal or type names,
(e, e, ..), opt exists plus star nevd vecd loop split(e,p) punct(e,p) rec(h,t)
box quote num; gate(e) is e, but threads can be held there (C29)."""
import json, os, random, re
import lexicons
from lexicons import LEX

UNARY = ("opt", "exists", "plus", "star", "nevd", "vecd", "loop", "box", "quote", "num", "gate")
BINARY = ("split", "punct", "rec")
KIND = {"nevd": "plus", "vecd": "star", "rec": "recover", "gate": "box"}
RUST = {"opt": "tp::Option", "exists": "tp::Exists", "plus": "tp::Nev", "star": "tp::Vec", "nevd": "tp::NevDeque",
        "vecd": "tp::VecDeque", "loop": "tp::Loop", "split": "tp::Split", "punct": "tp::Punct", "rec": "tp::Recover",
        "box": "Box", "quote": "tp::String", "gate": "Gate"}


def parse_expr(s):
    toks = re.findall(r"\w+|[(),]", s)
    pos = 0

    def go():
        nonlocal pos
        t = toks[pos]
        pos += 1
        if t == "(":
            return ("tuple", args())
        if pos < len(toks) and toks[pos] == "(" and t in UNARY + BINARY:
            pos += 1
            return (t, args())
        return ("name", t)

    def args():
        nonlocal pos
        out = [go()]
        while toks[pos] == ",":
            pos += 1
            out.append(go())
        assert toks[pos] == ")"
        pos += 1
        return out

    e = go()
    assert pos == len(toks), s
    return e


class Type:
    def __init__(self, kind, name, root, parts):
        self.kind, self.name, self.root, self.parts = kind, name, root, parts  # parts: [(expr, [sem])]


def parse_types(text):
    out = []
    for line in text.strip().splitlines():
        line = line.split("//")[0].strip()
        if not line:
            continue
        m = re.match(r"(!?)\s*([SE])\s+(\w+)\s*=\s*(.*)$", line)
        parts = []
        for p in re.split(r"[;|]", m.group(4)):
            e, _, s = p.partition("@")
            parts.append((parse_expr(e), [x.strip() for x in s.split(",")] if s else []))
        out.append(Type("struct" if m.group(2) == "S" else "enum", m.group(3), bool(m.group(1)), parts))
    return out


def show_expr(e):
    if e[0] == "name":
        return e[1]
    return ("" if e[0] == "tuple" else e[0]) + "(" + ",".join(show_expr(x) for x in e[1]) + ")"


def show_types(types):
    sep = {"struct": " ; ", "enum": " | "}
    return "\n".join(("!" if t.root else "") + ("S" if t.kind == "struct" else "E") + f" {t.name} = " +
                     sep[t.kind].join(show_expr(e) + (" @" + ",".join(s) if s else "") for e, s in t.parts) for t in types)


def rust_path(name):
    """m__T is a type T in a module of its own, perhaps with the same name as another"""
    return name + "::" + name.partition("__")[2] if "__" in name else name


def rust_expr(e):
    k = e[0]
    if k == "name":
        return rust_path(e[1])
    a = [rust_expr(x) for x in e[1]]
    if k == "tuple":
        return "(" + ", ".join(a) + ",)" if len(a) == 1 else "(" + ", ".join(a) + ")"
    if k == "num":
        return f"tp::Parse<u32, {a[0]}>"
    return RUST[k] + "<" + ", ".join(a) + ">"


class Corpus:
    """units: [(lexicon, [Type])]; builds the Rust source and the specification's table."""

    def __init__(self, units):
        self.units = units
        self.nodes, self.roots, self.owner = [], [], []
        self.byname = {}
        for u, (lex, types) in enumerate(units):
            names = {t.name: t for t in types}
            memo = {}

            def node(e):
                key = show_expr(e)
                if key in memo:
                    return memo[key]
                i = len(self.nodes) + 1
                memo[key] = i
                if e[0] == "name" and e[1] in names:
                    t = names[e[1]]
                    n = {"k": t.kind, "ch": [], "ty": "", "lit": "", "name": f"{t.name}", "show": t.name.rpartition("__")[2], "sem": [s for _, s in t.parts]}
                    self.nodes.append(n)
                    n["ch"] = [node(x) for x, _ in t.parts]
                elif e[0] == "name":
                    ty, l = lex.terminals[e[1]]
                    self.nodes.append({"k": "tok", "ch": [], "ty": ty, "lit": l or "", "name": e[1], "show": l or e[1], "sem": []})
                else:
                    n = {"k": KIND.get(e[0], e[0]), "ch": [], "ty": "", "lit": "", "name": "", "show": "", "sem": []}
                    self.nodes.append(n)
                    n["ch"] = [node(x) for x in e[1]]
                    n["sem"] = [[] for _ in e[1]]
                return i

            for t in types:
                if t.root:
                    self.roots.append({"lex": LEX.index(lex) + 1, "node": node(("name", t.name)), "name": t.name})
                    self.owner.append((u, t.name))

    def table(self):
        return {"lexicons": [l.spec() for l in LEX], "nodes": self.nodes, "roots": self.roots}

    # ------------------------------------------------------------ Rust
    def rust(self, once=False, light=False):
        """light: only the tables of the roots"""
        used = sorted({LEX.index(l) for l, _ in self.units})
        o = ["// generated from tools/corpus.py", "#![allow(dead_code, non_camel_case_types, unused_imports)]",
             "mod rt;", "use rt::*;", "use teleparse::prelude::*;"]
        if once:
            o += ["mod once;", "use once::Gate;"]
        for li in used:
            lex = LEX[li]
            o.append(f"pub mod l{li} {{\nuse super::*;")
            o.append(lex.rust())
            o.append("impl Probe for Ty {\nfn probes() -> Vec<(Self, Option<&'static str>, &'static str)> { vec![")
            for n, _, _ in lex.types:
                o.append(f'(Ty::{n}, None, "{n}:"),')
            for n, l in lex.lits():
                o.append(f"(Ty::{n}, Some({lexicons.rstr(l)}), {lexicons.rstr(n + ':' + l)}),")
            o.append("] } }")
            for t, (ty, _) in () if light else lex.terminals.items():
                o.append(f'impl Dump for {t} {{ fn dump(&self, o: &mut String, _: &Cx) {{ open(o, "tok", self.lo(), self.hi(), "{ty}"); close(o); }} }}')
            o.append("}")
        for u, (lex, types) in enumerate(self.units):
            li = LEX.index(lex)
            o.append(f"pub mod u{u} {{\nuse super::*; use super::l{li}::*;")
            for i, t in enumerate(types):
                mod, _, base = t.name.rpartition("__")
                o += [f"pub mod {t.name} {{ use super::*;"] if mod else []
                at = "#[derive_syntax]\n" + ("#[teleparse(root, no_test)]\n" if t.root else "")
                sem = lambda s: f"#[teleparse(semantic({', '.join(s)}))] " if s else ""
                if t.kind == "struct":
                    if i % 2 == 0:
                        f = ", ".join(f"{sem(s)}pub f{j}: {rust_expr(e)}" for j, (e, s) in enumerate(t.parts))
                        o.append(f"{at}pub struct {base} {{ {f} }}")
                        acc = [f"self.f{j}" for j in range(len(t.parts))]
                    else:
                        f = ", ".join(f"{sem(s)}pub {rust_expr(e)}" for e, s in t.parts)
                        o.append(f"{at}pub struct {base}({f});")
                        acc = [f"self.{j}" for j in range(len(t.parts))]
                    body = " o.push(','); ".join(f"{a}.dump(o, cx);" for a in acc)
                    o += [] if light else [f'impl Dump for {base} {{ fn dump(&self, o: &mut String, cx: &Cx) {{ open(o, "struct", self.lo(), self.hi(), "{t.name}"); {body} close(o); }} }}']
                else:
                    f = ", ".join(f"{sem(s)}V{j + 1}({rust_expr(e)})" for j, (e, s) in enumerate(t.parts))
                    o.append(f"{at}pub enum {base} {{ {f} }}")
                    arms = " ".join(f'Self::V{j + 1}(x) => {{ open(o, "enum", self.lo(), self.hi(), "{t.name}.{j + 1}"); x.dump(o, cx); }}' for j in range(len(t.parts)))
                    o += [] if light else [f"impl Dump for {base} {{ fn dump(&self, o: &mut String, cx: &Cx) {{ match self {{ {arms} }} close(o); }} }}"]
                o += ["}"] if mod else []
            o.append("}")
        if light:
            return "\n".join(o + self.rust_tables() + [f"fn main() {{ tables_loop(tables, {len(self.roots)}) }}"]) + "\n"
        o.append("fn run(lex: usize, plan: &[usize], ops: &[String], src: &str) -> String {\nmatch lex {")
        for li in used:
            o.append(f"{li + 1} => one::<l{li}::Ty>(src, plan, ops, &|g, p, src| match g {{")
            for g, r in enumerate(self.roots):
                if r["lex"] == li + 1:
                    o.append(f"{g + 1} => parse_once::<l{li}::Ty, u{self.owner[g][0]}::{rust_path(r['name'])}>(p, src),")
            o.append("_ => unreachable!() }),")
        o.append('_ => unreachable!() }\n}\nfn verdict(g: usize) -> (String, bool) {\nmatch g {')
        for g, r in enumerate(self.roots):
            o.append(f"{g + 1} => verdict_of::<u{self.owner[g][0]}::{rust_path(r['name'])}>(),")
        o.append("_ => unreachable!() }\n}")
        if once:
            o.append("fn view(g: usize) -> (String, String, String) {\nmatch g {")
            for g, r in enumerate(self.roots):
                o.append(f"{g + 1} => once::view::<u{self.owner[g][0]}::{rust_path(r['name'])}>(),")
            o.append("_ => unreachable!() }\n}\nfn main() { once::main_loop(run, view) }")
        else:
            o.append(f"fn main() {{ main_loop(run, verdict, {len(self.roots)}) }}")
        return "\n".join(o) + "\n"

    def rust_tables(self):
        return ["fn tables(g: usize) -> String {\nmatch g {"] + [
            f"{g + 1} => tables_of::<l{r['lex'] - 1}::Ty, u{self.owner[g][0]}::{rust_path(r['name'])}>()," for g, r in enumerate(self.roots)] + [
            "_ => unreachable!() }\n}"]

    # ------------------------------------------------------------ grammar facts used to choose inputs
    def lexicon(self, g):
        return LEX[self.roots[g - 1]["lex"] - 1]

    def reach(self, g):
        seen, todo = [], [self.roots[g - 1]["node"]]
        while todo:
            i = todo.pop()
            if i not in seen:
                seen.append(i)
                todo += self.nodes[i - 1]["ch"]
        return seen

    def kinds(self, g):
        return {self.nodes[i - 1]["k"] for i in self.reach(g)}

    def terminals(self, g):
        lex = self.lexicon(g)
        out = []
        for i in sorted(self.reach(g)):
            n = self.nodes[i - 1]
            if n["k"] == "tok" and n["name"] not in out:
                out.append(n["name"])
        return out

    def depth(self):
        """least number of tokens needed by each node (None: no finite string)"""
        if getattr(self, "_depth", None):
            return self._depth
        d = [None] * (len(self.nodes) + 1)
        changed = True
        while changed:
            changed = False
            for i, n in enumerate(self.nodes, 1):
                c = [d[x] for x in n["ch"]]
                k = n["k"]
                if k == "tok":
                    v = 1
                elif k in ("opt", "exists", "star"):
                    v = 0
                elif k == "enum":
                    c = [x for x in c if x is not None]
                    v = min(c) if c else None
                elif k in ("split", "punct", "plus", "loop", "box", "quote", "num"):
                    v = c[0]
                else:
                    v = None if None in c else sum(c)
                if v is not None and (d[i] is None or v < d[i]):
                    d[i] = v
                    changed = True
        self._depth = d
        return d

    def sentence(self, g, rng, budget=8):
        """a random sentence, as terminal names"""
        d = self.depth()
        if any(d[i] is None for i in self.reach(g)):
            return []

        def go(i, b):
            n = self.nodes[i - 1]
            k, ch = n["k"], n["ch"]
            if k == "tok":
                return [n["name"]]
            if k in ("opt", "exists"):
                if d[ch[0]] is not None and d[ch[0]] <= b and rng.random() < 0.6:
                    return go(ch[0], b)
                return []
            if k in ("star", "plus", "loop"):
                out = go(ch[0], b) if k != "star" else []
                while d[ch[0]] is not None and len(out) + max(1, d[ch[0]]) <= b and rng.random() < 0.6:
                    x = go(ch[0], b - len(out))
                    if not x:
                        break
                    out += x
                return out
            if k in ("split", "punct"):
                out = go(ch[0], b)
                while len(out) + d[ch[0]] + d[ch[1]] <= b and rng.random() < 0.6:
                    out += go(ch[1], 2)
                    out += go(ch[0], b - len(out))
                if k == "punct" and rng.random() < 0.4:
                    out += go(ch[1], 2)
                return out
            if k == "enum":
                ok = [x for x in ch if d[x] is not None]
                fit = [x for x in ok if d[x] <= b]
                return go(rng.choice(fit), b) if fit else go(min(ok, key=lambda x: d[x]), b)
            out = []
            rest = sum(d[x] for x in ch)
            for x in ch:
                rest -= d[x]
                out += go(x, max(d[x], b - len(out) - rest))
            return out

        return go(self.roots[g - 1]["node"], budget)

    def ll1(self, g):
        """Is the grammar of this root predictive?  (Selection of random grammars only.)"""
        lex = self.lexicon(g)
        P = {}

        def key(i):
            n = self.nodes[i - 1]
            k, ch = n["k"], n["ch"]
            c = lambda j: key(ch[j])
            if k == "tok":
                return "T." + n["name"]
            if k in ("struct", "enum"):
                return "S." + n["name"]
            if k in ("opt", "exists"):
                return f"opt({c(0)})"
            if k in ("plus", "loop"):
                return f"plus({c(0)})"
            if k == "star":
                return f"opt(plus({c(0)}))"
            if k == "split":
                return f"({c(0)},opt(plus(({c(1)},{c(0)}))))"
            if k == "punct":
                return f"punct({c(0)},{c(1)})"
            if k in ("tuple", "recover"):
                return "(" + ",".join(key(x) for x in ch) + ")"
            return c(0)

        def opt(k):
            P[f"opt({k})"] = ("u", [k, "()"])
            P["()"] = ("s", [])

        def plus(k):
            P[f"plus({k})"] = ("s", [k, f"opt(plus({k}))"])
            opt(f"plus({k})")

        for i in self.reach(g):
            n = self.nodes[i - 1]
            k = n["k"]
            c = [key(x) for x in n["ch"]]
            if k == "tok":
                ls = [l for t, l in lex.lits() if t == n["ty"]]
                P[key(i)] = ("t", {n["ty"] + ":" + n["lit"]} if n["lit"] else {n["ty"] + ":" + l for l in ls} | {n["ty"] + ":"})
            elif k in ("struct", "tuple", "recover"):
                P[key(i)] = ("s", c)
            elif k == "enum":
                P[key(i)] = ("u", c)
            elif k in ("opt", "exists"):
                opt(c[0])
            elif k in ("plus", "loop", "star"):
                plus(c[0])
            elif k == "split":
                pt = f"({c[1]},{c[0]})"
                P[pt] = ("s", [c[1], c[0]])
                plus(pt)
                P[key(i)] = ("s", [c[0], f"opt(plus({pt}))"])
            elif k == "punct":
                s = key(i)
                t = f"({c[1]},opt({s}))"
                P[t] = ("s", [c[1], f"opt({s})"])
                opt(t)
                opt(s)
                P[s] = ("s", [c[0], f"opt({t})"])
        null, first, follow = set(), {k: set() for k in P}, {k: set() for k in P}
        follow[key(self.roots[g - 1]["node"])].add("$")
        changed = True
        while changed:
            changed = False
            for k, (t, b) in P.items():
                before = (k in null, len(first[k]))
                if t == "t":
                    first[k] |= b
                elif t == "u":
                    for x in b:
                        first[k] |= first[x]
                    if any(x in null for x in b):
                        null.add(k)
                else:
                    for x in b:
                        first[k] |= first[x]
                        if x not in null:
                            break
                    if all(x in null for x in b):
                        null.add(k)
                changed |= before != (k in null, len(first[k]))
        # left recursion
        left = {k: set() for k in P}
        for k, (t, b) in P.items():
            if t == "u":
                left[k] = set(b)
            elif t == "s":
                for x in b:
                    left[k].add(x)
                    if x not in null:
                        break
        for k in P:
            seen, todo = set(), list(left[k])
            while todo:
                x = todo.pop()
                if x not in seen:
                    seen.add(x)
                    todo += left[x]
            if k in seen:
                return False
        changed = True
        while changed:
            changed = False
            for k, (t, b) in P.items():
                if t == "t":
                    continue
                for j, x in enumerate(b):
                    n = len(follow[x])
                    if t == "u":
                        follow[x] |= follow[k]
                    else:
                        for y in b[j + 1:]:
                            follow[x] |= first[y]
                            if y not in null:
                                break
                        else:
                            follow[x] |= follow[k]
                    changed |= n != len(follow[x])
        for k, (t, b) in P.items():
            if t == "u":
                seen, nn = set(), 0
                for x in b:
                    if first[x] & seen:
                        return False
                    seen |= first[x]
                    nn += x in null
                if nn > 1:
                    return False
            if k in null and first[k] & follow[k]:
                return False
        return True


# ---------------------------------------------------------------- selection and inputs
SAMPLES = {("LA", "Id"): ["x", "yy", "lets"], ("LA", "Num"): ["7", "042"], ("LB", "Word"): ["ab", "éa"],
           ("LB", "Digit"): ["5", "07"], ("LC", "Td"): ["d", "dd"],
           ("LD", "Str"): ['"q"', '"a\nb"', '"é\n\n1"'], ("LD", "Int"): ["7", "+7", "-7", "++8", "+042", "4294967295", "4294967296"],
           ("LD", "Pair"): ["ab", "cab", "_3"]}
NOISE = {"LA": ["@", "#c", "é", "\n", "  ", "😀", "#c#", "## #d", "@#@"], "LB": ["<x>", "?", "~z\n", "日", " ", "<><y>", "?<>日"],
         "LC": ["%", "?", "  ", "%%"], "LD": ["/*x*/", "/*a*//*b\n*/", "$", "\n", "é", "/**//**//* */", "$/**/$"]}


def samples(lex, t):
    ty, l = lex.terminals[t]
    return [l] if l is not None else SAMPLES[(lex.name, t)]


def wordy(s):
    return s[-1].isalnum()


def jobs(c, g, rng, cap, nrand, maxtok=9, noise=True, session=False):
    """Job lines for root g: all short token sequences, and mutated sentences."""
    lex = c.lexicon(g)
    ts = c.terminals(g)
    others = [t for t in lex.terminals if t not in ts]
    items = [samples(lex, t)[0] for t in ts]
    # one token that no terminal of the grammar matches, but of a type that it uses if there is one
    tys = {lex.terminals[t][0] for t in ts}
    cand = [t for t in others if lex.terminals[t][0] in tys] or others
    if cand:
        items.append(samples(lex, rng.choice(cand))[0])
    items = list(dict.fromkeys(items))
    items = [s + " " if wordy(s) else s for s in items]
    n, total, k = 0, 1, len(items)
    while total + k ** (n + 1) <= cap and n < 6:
        n += 1
        total += k ** n
    out = ["\t".join(["enum", str(c.roots[g - 1]["lex"]), str(g), str(n)] + [s.replace("\n", "\\n") for s in items])]
    count = total
    seen = set()
    for _ in range(nrand):
        s = c.sentence(g, rng, rng.randint(1, maxtok))
        s = mutate(s, rng, ts, others)
        text = render(s, lex, rng, noise and rng.random() < 0.5)
        if text in seen:
            continue
        seen.add(text)
        out.append("\t".join(["text", str(c.roots[g - 1]["lex"]), str(g), text.replace("\n", "\\n")]))
        count += 1
    return out, count


def mutate(s, rng, ts, others):
    s = list(s)
    for _ in range(rng.choice([0, 0, 1, 1, 1, 2, 3])):
        r = rng.random()
        pool = ts if rng.random() < 0.8 or not others else others
        if r < 0.35 and s:
            del s[rng.randrange(len(s))]
        elif r < 0.65:
            s.insert(rng.randint(0, len(s)), rng.choice(pool))
        elif r < 0.85 and s:
            s[rng.randrange(len(s))] = rng.choice(pool)
        elif len(s) > 1:
            i = rng.randrange(len(s) - 1)
            s[i], s[i + 1] = s[i + 1], s[i]
    return s


def render(s, lex, rng, noise):
    text = rng.choice(["", "", " "])
    for i, t in enumerate(s):
        x = rng.choice(samples(lex, t))
        if text and wordy(x) and wordy(text):
            text += " "
        text += x
        text += rng.choice(["", "", " ", "  "])
        while noise and rng.random() < 0.25:
            text += rng.choice(NOISE[lex.name])
    return text


TRIVIA = {"LA": [" ", "\n", "\t ", " #c ", " # #d\n", " @ ", " é ", " 😀#c @", "\n\n#zz "],
          "LB": [" ", "\n", " <x> ", " <><y> ? ", " ~z é<\n", " 日 ", " ~\n~\n"],
          "LC": [" ", " % ", " ? ", " %%?% "], "LD": [" ", "\n", " /*x*/ ", "\n/**//*b\n*/ ", " $ ", " é/* */$\n"]}


def twins(c, g, rng, n, maxtok=9):
    """Pairs of job lines for root g: the same tokens with other text between them."""
    lex = c.lexicon(g)
    ts = c.terminals(g)
    others = [t for t in lex.terminals if t not in ts]
    out = []
    for _ in range(n):
        s = mutate(c.sentence(g, rng, rng.randint(1, maxtok)), rng, ts, others)
        xs = [rng.choice(samples(lex, t)) for t in s]
        plain = " ".join(xs)
        gaps = TRIVIA[lex.name]
        def gap(may):
            x = "" if may and rng.random() < 0.5 else rng.choice(gaps)
            while rng.random() < 0.3:
                x += rng.choice(gaps)
            return x + " " if x and not x.endswith((" ", "\n")) else x
        rich = gap(True) + "".join(x + gap(i + 1 == len(xs)) for i, x in enumerate(xs))
        for t in (plain, rich):
            out.append("\t".join(["text", str(c.roots[g - 1]["lex"]), str(g), t.replace("\n", "\\n").replace("\t", "\\t")]))
    return out


# ---------------------------------------------------------------- random grammars
def random_types(rng, lex, depth=3, loose=False):
    """A few random derived types with one root; loose: possibly left-recursive ones."""
    terms = list(lex.terminals)
    pool = rng.sample(terms, min(len(terms), rng.randint(4, 8)))
    names = [f"N{i}" for i in range(rng.randint(1, 4))]
    semantic = [n for n, rs, ts in lex.types if not ts and not rs]

    def expr(d, later, first):
        r = rng.random()
        if d == 0 or r < 0.42:
            if later and rng.random() < 0.4:
                return ("name", rng.choice(later))
            return ("name", rng.choice(pool))
        k = rng.choice(["opt", "opt", "exists", "plus", "star", "star", "nevd", "vecd", "split", "punct", "rec", "tuple", "tuple",
                        "tuple", "box", "quote", "num"] + (["loop"] if d == depth else []))
        if k == "tuple":
            return ("tuple", [expr(d - 1, later, first and i == 0) for i in range(rng.choice([2, 2, 2, 3, 3, 3, 4, 5]))])
        if k in BINARY:
            return (k, [expr(d - 1, later, first), expr(min(d - 1, 1), [], False)])
        return (k, [expr(d - 1, later, first)])

    types = []
    for i, n in enumerate(names):
        kind = rng.choice(["struct", "struct", "enum"])
        parts = []
        for j in range(rng.choice([1, 2, 3, 3, 4, 6] if kind == "struct" else [2, 2, 3, 3, 4, 6])):
            if loose and j > 0 and rng.random() < 0.2:
                # (through a first part the compiler cannot tell the lexicon)
                e = ("box", [("name", names[rng.randrange(i + 1)])])
                e = e if rng.random() < 0.6 else ("opt", [e])
            elif i > 0 and j > 0 and rng.random() < 0.2:
                # recursion to an earlier type, boxed and not in first place
                e = ("tuple", [("name", rng.choice(pool)), ("opt", [("box", [("name", names[rng.randrange(i + 1)])])])])
            else:
                e = expr(depth - 1 if i else depth, names[i + 1:], j == 0)
            sem = rng.sample(semantic, min(len(semantic), rng.choice([1, 1, 2]))) if rng.random() < 0.25 else []
            parts.append((e, sem))
        types.append(Type(kind, n, i == 0, parts))
    return types


def used_types(types):
    """drop types the root does not reach"""
    names = {t.name: t for t in types}
    seen, todo = [], [types[0].name]

    def uses(e):
        if e[0] == "name":
            return [e[1]] if e[1] in names else []
        return [y for x in e[1] for y in uses(x)]
    while todo:
        n = todo.pop(0)
        if n not in seen:
            seen.append(n)
            for e, _ in names[n].parts:
                todo += uses(e)
    return [t for t in types if t.name in seen]


def random_units(rng, count, want=lambda kinds: True, lexs=(0, 0, 0, 0, 1, 3), rejected=0, loose=False):
    """`count` random accepted grammars (and `rejected` rejected ones) whose kinds pass `want`."""
    out, rej, tries = [], [], 0
    while (len(out) < count or len(rej) < rejected) and tries < 20000:
        tries += 1
        lex = LEX[rng.choice(lexs)]
        types = used_types(random_types(rng, lex, loose=loose and tries % 2 == 0))
        c = Corpus([(lex, types)])
        if len(c.nodes) > 40 or not (loose and tries % 2 == 0) and None in c.depth()[1:]:
            continue
        if not want(c.kinds(1)):
            continue
        if c.ll1(1):
            if len(out) < count:
                out.append((lex, types))
        elif len(rej) < rejected:
            rej.append((lex, types))
    return out + rej


def hand_units(tag):
    import grammars
    return [(lex, parse_types(text)) for tags, lex, text in grammars.G if tag is None or tag in tags]


# ---------------------------------------------------------------- call histories
def probes(lex):
    return [(n, None) for n, _, _ in lex.types] + [tuple(x) for x in lex.lits()]


def op_spec(lex, word):
    """the call of the specification a word of a job stands for"""
    P = probes(lex)
    w = word.split("=")
    op = {"k": w[0], "ty": "", "lit": "", "follow": [], "lo": 0, "hi": 0, "types": [], "g": 0}
    if w[0] == "ty":
        op["ty"] = P[int(w[1])][0]
    elif w[0] == "lit":
        op["ty"], op["lit"] = P[int(w[1])]
        op["follow"] = [["$", ""] if x == "$" else [P[int(x)][0], P[int(x)][1] or ""] for x in w[2].split(".") if x]
    elif w[0] == "mark":
        op["lo"], op["hi"] = map(int, w[1].split("-"))
        op["types"] = [P[int(x)][0] for x in w[2].split(".") if x]
    elif w[0] == "parse":
        op["g"] = int(w[1])
    return op


def random_word(c, lex, rng, roots, textlen):
    P = probes(lex)
    types = range(len(lex.types))
    lits = range(len(lex.types), len(P))
    r = rng.random()
    if r < 0.4:
        return rng.choice(["peek", "src", "eat", "eat", "at", "gap", "rest", "eoferr"])
    if r < 0.5:
        return f"ty={rng.choice(types)}"
    if r < 0.68:
        n = rng.choice([0, 1, 2, 4])
        f = rng.sample(range(len(P)), n)
        return f"lit={rng.choice(lits)}=" + ".".join((["$"] if rng.random() < 0.4 else []) + [str(x) for x in f])
    if r < 0.76:
        lo = rng.randint(0, textlen)
        return f"mark={lo}-{rng.randint(lo, textlen)}=" + ".".join(str(x) for x in rng.sample(types, rng.choice([0, 1, 2])))
    return f"parse={rng.choice(roots)}"


def session_jobs(c, rng, count, maxops=12):
    """(job lines, calls of each) of random call histories"""
    lines, calls = [], []
    bylex = {}
    for g in range(1, len(c.roots) + 1):
        bylex.setdefault(c.roots[g - 1]["lex"], []).append(g)
    for _ in range(count):
        li = rng.choice([1, 1, 1, 2, 2, 3, 4])
        if li not in bylex:
            li = 1
        lex, roots = LEX[li - 1], bylex[li]
        mine = rng.sample(roots, min(len(roots), 3))
        ts = list(lex.terminals)
        s = []
        for _ in range(rng.randint(0, 3)):
            g = rng.choice(mine)
            s += mutate(c.sentence(g, rng, rng.randint(1, 6)), rng, c.terminals(g), ts)
        if not s:
            s = [rng.choice(ts) for _ in range(rng.randint(0, 6))]
        text = render(s, lex, rng, rng.random() < 0.7)
        n = rng.randint(1, maxops)
        words = [random_word(c, lex, rng, mine, len(text.encode())) for _ in range(n)]
        lines.append("\t".join(["ops", str(li), " ".join(words), text.replace("\n", "\\n")]))
        calls.append([op_spec(lex, w) for w in words])
    return lines, calls


def short_histories(c, rng, length, texts):
    """all histories of up to `length` calls from a small set, on a few texts"""
    import itertools
    lex = LEX[0]
    P = probes(lex)
    ix = lambda t, l=None: P.index((t, l))
    roots = [g for g in range(1, len(c.roots) + 1) if c.roots[g - 1]["lex"] == 1 and c.ll1(g)]
    g = rng.choice(roots)
    words = ["peek", "eat", "at", "gap", "rest", f"ty={ix('Id')}", f"lit={ix('Op', '+')}=$.{ix('Num')}",
             f"lit={ix('Pun', ';')}={ix('Id')}.{ix('Op', '*')}", f"parse={g}"]
    lines, calls = [], []
    for text in texts:
        for n in range(1, length + 1):
            for ws in itertools.product(words, repeat=n):
                # calls that change nothing are only interesting before one that might
                lines.append("\t".join(["ops", "1", " ".join(ws), text.replace("\n", "\\n")]))
                calls.append([op_spec(lex, w) for w in ws])
    return lines, calls


def scenes(c, rng, count):
    """texts with the calls to try on them: (scenes of the model, words of the calls, texts)"""
    bylex = {}
    for g in range(1, len(c.roots) + 1):
        if c.ll1(g):
            bylex.setdefault(c.roots[g - 1]["lex"], []).append(g)
    out, words, texts = [], [], []
    while len(out) < count:
        li = rng.choice(list(bylex) + [1])
        lex, roots = LEX[li - 1], bylex[li]
        mine = rng.sample(roots, min(len(roots), 3))
        g = mine[0]
        s = mutate(c.sentence(g, rng, rng.randint(1, 4)), rng, c.terminals(g), list(lex.terminals))
        text = render(s[:6], lex, rng, rng.random() < 0.7)
        n = len(text.encode())
        if n > 24 or text in texts:
            continue
        P = probes(lex)
        ws = ["peek", "src", "eat", "at", "gap", "rest", "eoferr"] + [f"parse={x}" for x in mine]
        ws += [f"ty={x}" for x in rng.sample(range(len(lex.types)), 2)]
        while len(ws) < 18:
            w = random_word(c, lex, rng, mine, n)
            if w[:3] in ("lit", "mar") and w not in ws and (w[:3] == "lit" or sum(x[:4] == "mark" for x in ws) < 2):
                ws.append(w)
        chars = list(text)
        off = [0]
        for ch in chars:
            off.append(off[-1] + len(ch.encode()))
        out.append({"lex": li, "in": chars, "off": off, "ops": [op_spec(lex, w) for w in ws]})
        words.append(ws)
        texts.append(text)
    return out, words, texts


def wild_jobs(c, g, rng, count, maxlen=24):
    """texts that are not made of tokens"""
    lex = c.lexicon(g)
    pool = lexicons.ALPHABET + ["é", "\u0301", "\U0001F600", "\u00a0", "日", "\r", "\x00", "\x7f", "ÿ"]
    some = [samples(lex, t)[0] for t in lex.terminals] + NOISE[lex.name]
    out = []
    for _ in range(count):
        # LD has patterns whose unfinished matches the lexer generator treats in its own way (C24)
        s = "".join(rng.choice(some) + " " if lex.name == "LD" else rng.choice(some) if rng.random() < 0.5 else rng.choice(pool) for _ in range(rng.randint(0, maxlen)))
        s = s.replace("\t", " ").replace("\\", "/").replace("\r", " ").replace("\x00", "\x01")
        out.append("\t".join(["text", str(c.roots[g - 1]["lex"]), str(g), s.replace("\n", "\\n")]))
    return out
