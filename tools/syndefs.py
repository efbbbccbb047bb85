"""Definitions of syntax tree types and helper nodes, valid and not: what the compiler says about
them, and what the accepted ones provide (C33)."""
import itertools, json, os, random, re, subprocess
import vlib
from defs import compile_defs, crate
from vlib import SEED, thorough, log, cargo_build, cargo_env, run_driver, ToolError

COMMON = """
pub mod common {
use teleparse::prelude::*;
#[derive_lexicon]
#[teleparse(ignore(" +"))]
pub enum A {
    #[teleparse(terminal(Ka = "a", Kb = "b", Kc = "c"))] W,
    #[teleparse(regex("[0-9]+"), terminal(Num, Zero = "0"))] N,
    X, Y }
#[derive_lexicon]
pub enum B { #[teleparse(terminal(La = "a", Lb = "b"))] V, Z }
#[derive(Debug, Clone, PartialEq)] pub struct Bare;
pub fn spot(n: usize) -> Span { Span::new(n * 10 + 1, n * 10 + 4 + n) }
pub fn show(s: Span) -> String { format!("[{},{}]", s.lo, s.hi) }
}
"""
# Rust type, kind, lexicon, first terminals
PARTS = [("Ka", "part", "A", ["a"]), ("Kb", "part", "A", ["b"]), ("Kc", "part", "A", ["c"]), ("Num", "part", "A", ["#", "0"]), ("Zero", "part", "A", ["0"]),
         ("Box<Kb>", "part", "A", ["b"]), ("(Kc, Ka)", "part", "A", ["c"]), ("tp::Nev<Ka>", "part", "A", ["a"]),
         ("Box<(Ka, Kb, Kc)>", "part", "A", ["a"])]
OTHER = [("La", "part", "B", ["a"]), ("Lb", "part", "B", ["b"]), ("(Lb, La)", "part", "B", ["b"])]
PLAIN = [("u8", "plain", "", []), ("i64", "plain", "", []), ("std::vec::Vec<u8>", "plain", "", []), ("std::string::String", "plain", "", [])]
SPANS = [("Span", "span", "", []), ("teleparse::Span", "span", "", [])]
NODES = [("Node<u32>", "node", "", []), ("tp::Node<u32>", "node", "", []), ("teleparse::tp::Node<u32>", "node", "", [])]
BARE = [("Bare", "nodefault", "", [])]
# conversions to show what a field was filled with
ZERO = {"u8": "{} as usize", "i64": "{} as usize", "std::vec::Vec<u8>": "{}.len()", "std::string::String": "{}.len()", "Span": "{}.hi", "teleparse::Span": "{}.hi"}
NAMES = ["a", "b", "errors", "result", "parser", "meta", "r#type", "r#fn", "node", "inner", "value", "span", "x", "t", "lo", "hi"]
IDENTS = ["S", "Node0", "Result", "Vec", "Err_", "lower", "r#Self_", "A1", "String"]
TYPES = {"A": ["W", "N", "X", "Y"], "B": ["V", "Z"]}


def field(rng, pool, attrs=()):
    t = rng.choice(pool)
    return {"ty": t[0], "kind": t[1], "lex": t[2], "first": t[3], "more": ["a"] if "Nev" in t[0] else [], "attrs": list(attrs)}


def semantic(rng, lex, n=None):
    n = rng.choice([1, 1, 1, 2, 2, 3]) if n is None else n
    return {"form": "list", "name": "semantic", "args": [rng.choice(TYPES[lex]) for _ in range(n)]}


def alt(style, fields, value=False, attrs=()):
    return {"style": style, "fields": fields, "value": value, "attrs": list(attrs)}


def place(rng, lex):
    r = rng.random()
    return [] if r < 0.6 else [[semantic(rng, lex)]] if r < 0.95 else [[]]


def flags(rng):
    F = lambda *ns: [{"form": "flag", "name": n, "args": []} for n in ns]
    return rng.choice([[], [], [[]], [F("root")], [F("root")], [F("root", "no_test")], [F("no_test", "root")], [F("root", "root")],
                       [F("root", "no_test", "root")]])


def dress(rng, d):
    d["ident"] = rng.choice(IDENTS)
    d["vis"] = rng.choice(["pub ", "pub ", "pub(crate) ", "pub(super) ", ""])
    d["debug"] = rng.choice(["none", "before", "after"])
    d["docs"] = rng.random() < 0.3
    return d


def valid_syntax(rng):
    lex = "B" if rng.random() < 0.15 else "A"
    pool = PARTS if lex == "A" else OTHER
    d = {"derive": "syntax", "attrs": flags(rng), "generics": ("", "", "")}
    n = rng.choice([1, 1, 2, 2, 3, 4, 5])
    if rng.random() < 0.5:
        d["shape"] = "struct"
        d["alts"] = [alt(rng.choice(["named", "unnamed"]), [field(rng, pool, place(rng, lex)) for _ in range(n)])]
    else:
        d["shape"] = "enum"
        d["alts"] = [alt("unnamed", [field(rng, pool)], attrs=place(rng, lex)) for _ in range(n)]
        if rng.random() < 0.6:
            seen, keep = set(), []
            for a in d["alts"]:
                if not seen & set(a["fields"][0]["first"]):
                    keep.append(a)
                    seen |= set(a["fields"][0]["first"])
            d["alts"] = keep
    return d


def spoil_syntax(rng, d):
    lex = d["alts"][0]["fields"][0]["lex"] or "A" if d["alts"] and d["alts"][0]["fields"] else "A"
    k = rng.choice(["kind", "lex", "twice", "form", "repeat", "unknown", "flag", "twoitems", "lonely", "shape", "fields", "value", "style", "variants"])
    item = {"form": "flag", "name": "root", "args": []}
    a = rng.choice(d["alts"]) if d["alts"] else None
    f = rng.choice(a["fields"]) if a and a["fields"] else None
    at = (a if d["shape"] == "enum" else f)
    at = at["attrs"] if at else None
    if k in ("kind", "lex") and f:
        n = field(rng, OTHER if k == "lex" and lex == "A" else PARTS if k == "lex" else PLAIN + SPANS + NODES + BARE)
        f.update({x: n[x] for x in ("ty", "kind", "lex", "first", "more")})
    elif k == "twice" and at is not None:
        while len(at) < 2:
            at.append([semantic(rng, lex)] if rng.random() < 0.7 else [])
    elif k == "form" and at is not None:
        bad = rng.choice([{"form": "flag", "name": "semantic", "args": []}, {"form": "value", "name": "semantic", "args": []},
                          {"form": "flag", "name": "root", "args": []}])
        if not at:
            at.append([])
        at[0].insert(rng.randint(0, len(at[0])), bad)
    elif k == "repeat" and at is not None:
        if not at:
            at.append([])
        while len(at[0]) < 2:
            at[0].append(semantic(rng, lex))
    elif k == "unknown" and at is not None:
        s = semantic(rng, lex)
        s["args"].insert(rng.randint(0, len(s["args"])), rng.choice(["Q", "Ka", "V" if lex == "A" else "W", "w"]))
        at[:] = [[s]]
    elif k == "flag":
        bad = rng.choice([{"form": "flag", "name": "rooot", "args": []}, {"form": "list", "name": "root", "args": []},
                          {"form": "value", "name": "root", "args": []}, {"form": "flag", "name": "semantic", "args": []},
                          {"form": "list", "name": "semantic", "args": ["X"]}])
        if not d["attrs"]:
            d["attrs"].append([])
        d["attrs"][0].insert(rng.randint(0, len(d["attrs"][0])), bad)
    elif k == "twoitems":
        while len(d["attrs"]) < 2:
            d["attrs"].append([item] if rng.random() < 0.6 else [])
    elif k == "lonely":
        d["attrs"] = [[{"form": "flag", "name": "no_test", "args": []}]]
    elif k == "shape" and d["shape"] == "struct":
        d["shape"] = "union"
        d["alts"] = [alt("named", [field(rng, PLAIN[:2])])]
    elif k == "fields":
        if d["shape"] == "struct":
            d["alts"] = [alt(rng.choice(["named", "unnamed", "unit"]), [])]
        elif a:
            a["fields"] = [] if rng.random() < 0.4 else a["fields"] + [field(rng, PARTS if lex == "A" else OTHER)]
    elif k == "value" and d["shape"] == "enum" and a:
        a["value"] = True
    elif k == "style" and d["shape"] == "enum" and a:
        a["style"] = rng.choice(["named", "unit"])
        if a["style"] == "unit":
            a["fields"] = []
            a["attrs"] = []
    elif k == "variants" and d["shape"] == "enum":
        d["alts"] = []


GENERICS = [("", "", ""), ("", "", ""), ("<T>", "<u16>", ""), ("<T: Clone>", "<u16>", ""), ("<T>", "<u16>", " where T: Default"),
            ("<'a, T: 'a>", "<'static, u16>", ""), ("<T, const K: usize>", "<u16, 3>", " where T: Clone + Default")]


def marker(g):
    """a field that uses the parameters"""
    return {"": "u8", "<T>": "std::vec::Vec<T>", "<T: Clone>": "std::vec::Vec<T>", "<'a, T: 'a>": "std::option::Option<&'a T>",
            "<T, const K: usize>": "std::marker::PhantomData<[T; K]>"}[g]


def helper(rng, derive):
    d = {"derive": derive, "attrs": [], "generics": rng.choice(GENERICS)}
    first = SPANS + NODES + PARTS if derive == "span" else NODES
    later = PLAIN + SPANS + ([] if derive == "node" else NODES + BARE + PARTS)
    d["shape"] = "struct" if derive == "node" else rng.choice(["struct", "enum"])
    d["alts"] = []
    for _ in range(1 if d["shape"] == "struct" else rng.choice([1, 2, 2, 3])):
        d["alts"].append(alt(rng.choice(["named", "unnamed"]), [field(rng, first)] + [field(rng, later) for _ in range(rng.choice([0, 1, 1, 2, 3]))]))
    g = d["generics"][0]
    if g:
        d["alts"][0]["fields"].append({"ty": marker(g), "kind": "plain", "lex": "", "first": [], "more": [], "attrs": []})
    return d


def spoil_helper(rng, d):
    k = rng.choice(["first", "first", "later", "shape", "fields"])
    a = rng.choice(d["alts"])
    if k == "first":
        n = field(rng, PLAIN + BARE + SPANS + NODES)
        a["fields"][0].update({x: n[x] for x in ("ty", "kind", "lex", "first", "more")})
    elif k == "later" and len(a["fields"]) > 1:
        n = field(rng, PLAIN + BARE + SPANS + NODES)
        a["fields"][1].update({x: n[x] for x in ("ty", "kind", "lex", "first", "more")})
        d["generics"] = ("", "", "")
        for f in d["alts"][0]["fields"]:
            if f["ty"] in ("std::vec::Vec<T>", "std::option::Option<&'a T>", "std::marker::PhantomData<[T; K]>"):
                f["ty"] = "u8"
    elif k == "shape":
        d["generics"] = ("", "", "")
        d["shape"] = rng.choice(["union", "enum"]) if d["derive"] == "node" else "union"
        d["alts"] = [alt("named", [field(rng, PLAIN[:2])] if d["shape"] == "union" else [field(rng, NODES)])]
    elif k == "fields":
        d["generics"] = ("", "", "")
        for x in d["alts"]:
            for f in x["fields"]:
                if f["ty"] in ("std::vec::Vec<T>", "std::option::Option<&'a T>", "std::marker::PhantomData<[T; K]>"):
                    f["ty"] = "u8"
        a["style"] = rng.choice(["named", "unnamed", "unit"])
        a["fields"] = []


def random_def(rng):
    derive = rng.choice(["syntax", "syntax", "syntax", "span", "node"])
    d = valid_syntax(rng) if derive == "syntax" else helper(rng, derive)
    for _ in range(rng.choice([0, 0, 1, 1, 2])):
        (spoil_syntax if derive == "syntax" else spoil_helper)(rng, d)
        if d["shape"] == "union" or any(not a["fields"] for a in d["alts"]) or not d["alts"]:
            break
    return dress(rng, d)


def exhaustive(rng):
    """every pair of flags, of items on a part, of kinds of parts"""
    out = []
    one = lambda **k: dress(rng, {"derive": "syntax", "shape": "struct", "attrs": [], "generics": ("", "", ""),
                                  "alts": [alt("unnamed", [field(rng, PARTS[:1]), field(rng, PARTS[1:2])])], **k})
    F = [{"form": "flag", "name": n, "args": []} for n in ("root", "no_test", "test")]
    for n in range(4):
        for fs in itertools.product(F, repeat=n):
            out.append(one(attrs=[list(fs)]))
    for fs in itertools.product([[], F[:1], F[:2], F[1:2]], repeat=2):
        out.append(one(attrs=[list(x) for x in fs]))
    items = [{"form": "list", "name": "semantic", "args": a} for a in (["X"], ["Y", "W"], ["Q"], ["X", "X"])] + [
        {"form": "flag", "name": "semantic", "args": []}, {"form": "value", "name": "semantic", "args": []}]
    for n in range(3):
        for fs in itertools.product(items, repeat=n):
            for shape, style in (("struct", "named"), ("struct", "unnamed"), ("enum", "unnamed")):
                for where in (0, 1):
                    fields = [field(rng, PARTS[:1]), field(rng, PARTS[1:2])]
                    if shape == "struct":
                        fields[where]["attrs"] = [list(fs)] if fs else []
                        alts = [alt(style, fields)]
                    else:
                        alts = [alt(style, [f]) for f in fields]
                        alts[where]["attrs"] = [list(fs)] if fs else []
                    out.append(one(shape=shape, alts=alts))
    for a, b in itertools.product([PARTS[0], OTHER[1], PLAIN[0], SPANS[0], NODES[0], BARE[0]], repeat=2):
        for derive in ("syntax", "span", "node"):
            for style in ("named", "unnamed"):
                out.append(one(derive=derive, alts=[alt(style, [field(rng, [a]), field(rng, [b])])]))
    for derive in ("syntax", "span", "node"):
        for n in range(1, 7):
            for style in ("named", "unnamed"):
                out.append(one(derive=derive, alts=[alt(style, [field(rng, NODES if derive == "node" and j == 0 else PLAIN if derive == "node" else PARTS)
                                                                for j in range(n)])], attrs=[F[:1]] if derive == "syntax" else []))
    return out


def spec(d):
    strip = lambda f: {k: f[k] for k in ("kind", "lex", "first", "more", "attrs")}
    return {"derive": d["derive"], "shape": d["shape"], "attrs": d["attrs"],
            "alts": [{**a, "fields": [strip(f) for f in a["fields"]]} for a in d["alts"]]}


def attr(items):
    def one(i):
        if i["form"] == "flag":
            return i["name"]
        if i["form"] == "value":
            return i["name"] + ' = "X"'
        return i["name"] + "(" + ", ".join(i["args"]) + ")"
    return "#[teleparse(" + ", ".join(map(one, items)) + ")]"


def names(d, a):
    rng = random.Random(json.dumps(d, sort_keys=True))
    return rng.sample(NAMES, len(a["fields"]))


def body(d, a, pub):
    doc = "/// text\n#[allow(unused)] " if d["docs"] else ""
    at = lambda f: "".join(attr(x) + " " for x in f["attrs"])
    if a["style"] == "unit":
        return ""
    if a["style"] == "unnamed":
        return "(" + ", ".join(doc + at(f) + pub + f["ty"] for f in a["fields"]) + ")"
    return " { " + ", ".join(doc + at(f) + pub + n + ": " + f["ty"] for n, f in zip(names(d, a), a["fields"])) + " }"


def value(d, a, ident, filled):
    if a["style"] == "named":
        return ident + " { " + ", ".join(f"{n}: {v}" for n, v in zip(names(d, a), filled)) + " }"
    return ident + "(" + ", ".join(filled) + ")"


def rust(d):
    o = []
    if d["derive"] == "syntax":
        debug = "#[derive(Debug)]"
        if d["debug"] == "before":
            o.append(debug)
        o.append("#[derive_syntax]")
        if d["debug"] == "after":
            o.append(debug)
    else:
        o.append("#[derive(%s%s)]" % ("teleparse::ToSpan" if d["derive"] == "span" else "teleparse::tp::Node", "" if d["debug"] == "none" else ", Debug"))
    if d["docs"]:
        o.append("/// text\n#[allow(unused)]")
    o += [attr(a) for a in d["attrs"]]
    g, _, where = d["generics"]
    head = d["vis"] + d["shape"] + " " + d["ident"] + g
    if d["shape"] == "enum":
        o.append(head + where + " {")
        for j, a in enumerate(d["alts"]):
            o.append("".join(attr(x) + " " for x in a["attrs"]) + f"V{j}" + body({**d, "n": j}, a, "") + (f" = {j}" if a["value"] else "") + ",")
        o.append("}")
    else:
        a = d["alts"][0]
        b = body({**d, "n": 0}, a, "")
        o.append(head + (b + where + ";" if a["style"] != "named" else where + b))
    o.append(uses(d))
    return "\n".join(o)


def full(d):
    return d["ident"] + d["generics"][1]


def uses(d):
    """what a program may do with a valid definition"""
    o = ["const _: () = { fn has<T: %s>() {}" % {"syntax": "teleparse::Produce + teleparse::ToSpan", "span": "teleparse::ToSpan",
                                                 "node": "From<teleparse::tp::Node<u32>> + std::ops::DerefMut<Target = u32>"}[d["derive"]]]
    o.append(f"fn it() {{ has::<{full(d)}>(); }}")
    if d["debug"] != "none":
        o.append("fn shown<T: std::fmt::Debug>() {} fn it2() { shown::<%s>(); }" % full(d))
    o.append("};")
    return " ".join(o)


# the traits that exist for all types, and the ones only for roots: which function is found tells them apart
ROOT = """pub fn root() -> bool { struct W<T>(std::marker::PhantomData<T>); trait No { fn is(&self) -> bool { false } } impl<T> No for &W<T> {}
trait Yes { fn is(&self) -> bool { true } } impl<T: teleparse::Root> Yes for W<T> {} (&W::<%s>(std::marker::PhantomData)).is() }"""


def observe(d):
    """a function that prints what the definition provides, as JSON"""
    o = []
    vals = []
    if d["derive"] == "syntax":
        o.append(ROOT % full(d))
        call = "root()"
    else:
        call = "false"
    if d["derive"] == "span":
        for j, a in enumerate(d["alts"]):
            ident = d["ident"] + (f"::V{j}" if d["shape"] == "enum" else "")
            filled, spans = [], []
            for n, f in enumerate(a["fields"]):
                m = n + j
                e = sample(f["ty"], m)
                filled.append(e[0])
                spans.append(e[1] or "[0,0]")
            vals.append('{ let v: %s = %s; format!("{{\\"spans\\":[%s],\\"got\\":{}}}", show(teleparse::ToSpan::span(&v))) }'
                        % (full(d), value({**d, "n": j}, a, ident, filled), ",".join(spans)))
            vals.append('{ let v: %s = %s; format!("{{\\"spans\\":[%s],\\"got\\":{}}}", show(Span::new(teleparse::ToSpan::lo(&v), teleparse::ToSpan::hi(&v)))) }'
                        % (full(d), value({**d, "n": j}, a, ident, filled), ",".join(spans)))
    if d["derive"] == "node":
        a = d["alts"][0]
        ns = names({**d, "n": 0}, a) if a["style"] == "named" else [str(i) for i in range(len(a["fields"]))]
        rest = [ZERO[f["ty"]].format("h." + n) for n, f in list(zip(ns, a["fields"]))[1:] if f["ty"] in ZERO]
        known = [f["ty"] in ZERO for f in a["fields"][1:]]
        it = iter(rest)
        rest = [next(it) if k else "0" for k in known]
        state = 'format!("{{\\"lo\\":{},\\"hi\\":{},\\"value\\":{},\\"rest\\":{:?}}}", h.%s.span.lo, h.%s.span.hi, h.%s.value, std::vec::Vec::<usize>::from([%s]))' % (
            ns[0], ns[0], ns[0], ", ".join(rest))
        for v, to in ((3, 4), (0, 9)):
            vals.append("""{ let mut h: %s = From::from(teleparse::tp::Node::<u32>::new(spot(%d), %d)); let made = %s; let read: u32 = *h;
            *h = %d; let changed = %s; let taken: u32 = h.into_inner();
            let s = spot(%d);
            format!("{{\\"node\\":{{\\"lo\\":{},\\"hi\\":{},\\"value\\":%d}},\\"to\\":%d,\\"made\\":{},\\"read\\":{},\\"changed\\":{},\\"taken\\":{}}}", s.lo, s.hi, made, read, changed, taken) }"""
                        % (full(d), v, v, state, to, state, v, v, to))
    o.append('pub fn observe() -> std::string::String { let vals: std::vec::Vec<std::string::String> = std::vec![%s]; format!("\\"root\\":{},\\"values\\":[{}]", %s, vals.join(",")) }'
             % (", ".join(vals), call))
    return "\n".join(o)


def sample(ty, m):
    """an expression of the type, and its span as the specification is told it"""
    lo, hi = m * 10 + 1, m * 10 + 4 + m
    s = f"[{lo},{hi}]"
    t = ty.replace("teleparse::", "").replace("tp::", "")
    tok = lambda k, m, ty: f"{k}(teleparse::Token::new(spot({m}), A::{ty}))"
    ks = {"Ka": "W", "Kb": "W", "Kc": "W", "Num": "N", "Zero": "N"}
    if t == "Span":
        return f"spot({m})", s
    if t == "Node<u32>":
        return f"teleparse::tp::Node::new(spot({m}), 7)", s
    if t in ks:
        return tok(t, m, ks[t]), s
    if t == "Box<Kb>":
        return f"Box::new({tok('Kb', m, 'W')})", s
    if t == "(Kc, Ka)":
        return f"({tok('Kc', m, 'W')}, {tok('Ka', m + 1, 'W')})", f"[{lo},{(m + 1) * 10 + 4 + m + 1}]"
    if t == "Box<(Ka, Kb, Kc)>":
        return f"Box::new(({tok('Ka', m, 'W')}, {tok('Kb', m, 'W')}, {tok('Kc', m + 2, 'W')}))", f"[{lo},{(m + 2) * 10 + 4 + m + 2}]"
    return {"u8": "7", "i64": "7", "std::vec::Vec<u8>": "vec![1]", "std::string::String": 'std::string::String::from("s")', "Bare": "Bare",
            "std::vec::Vec<T>": "vec![7u16]", "std::option::Option<&'a T>": "None", "std::marker::PhantomData<[T; K]>": "std::marker::PhantomData"}[t], None


PROLOGUE = "use crate::common::*; #[allow(unused_imports)] use teleparse::{prelude::derive_syntax, tp, tp::Node, Span};\n"


def tests_of(exe):
    """module -> (name, ended) of every generated test"""
    r = subprocess.run([exe, "--test-threads", "8"], capture_output=True, text=True)
    res = {}
    for m in re.finditer(r"^test d(\d+)::(\S+) (?:- should panic )?\.\.\. (ok|FAILED)", r.stdout, re.M):
        res.setdefault(int(m.group(1)), []).append((m.group(2), m.group(3)))
    return res


def syndefs_stage(c):
    rng = random.Random(f"{SEED}-{c.pid}")
    defs = exhaustive(rng) + [random_def(rng) for _ in range(4000 if thorough() else 900)]
    for d in defs:
        # parts without a sample value cannot be used as values
        if d["derive"] == "span":
            for a in d["alts"]:
                for f in a["fields"]:
                    if f["ty"] == "tp::Nev<Ka>" or f["lex"] == "B":
                        f.update(ty="Ka", kind="part", lex="A", first=["a"], more=[])
    text = lambda d: PROLOGUE + rust(d)
    bad = compile_defs(c, defs, "all", text, COMMON)
    log(f"{len(defs)} definitions compiled, {len(bad)} rejected")
    rest = [i for i in range(len(defs)) if i not in bad]
    more = compile_defs(c, [defs[i] for i in rest], "accepted", text, COMMON)
    bad |= {rest[j] for j in more}
    rest = [i for i in range(len(defs)) if i not in bad]
    # what the accepted ones provide
    mods = "\n".join(f"mod d{i} {{ {text(defs[i])}\n{observe(defs[i])}\n}}" for i in rest)
    main = 'fn main() {\n' + "\n".join(f'println!("#{i}\\n{{{{\\"id\\":{i},{{}}}}}}", d{i}::observe());' for i in rest) + "\n}\n"
    d = crate(c, "provided", "#![allow(dead_code, unused, non_camel_case_types, private_interfaces)]\n" + COMMON + mods + "\n" + main)
    exe = cargo_build(d)
    got = {o["id"]: o for o in run_driver(lambda s: [exe], lambda i, how: {"id": i, "root": how, "values": []})}
    r = subprocess.run(["cargo", "test", "--offline", "-q", "--no-run", "--message-format=json"], cwd=d, env=cargo_env(), capture_output=True, text=True)
    if r.returncode != 0:
        print(r.stderr[-3000:])
        raise ToolError("the tests of the accepted definitions do not compile")
    exes = [json.loads(l)["executable"] for l in r.stdout.splitlines() if l.startswith("{") and json.loads(l).get("executable")]
    tests = tests_of(exes[0])
    log(f"{len(rest)} accepted definitions run, {len(tests)} generated tests")
    obs = []
    for i, x in enumerate(defs):
        o = {"id": i, "def": spec(x), "accepted": i not in bad, "root": False, "test": "", "values": []}
        if i in got:
            o.update(root=got[i]["root"], values=[norm(v) for v in got[i]["values"]])
            ts = tests.get(i, [])
            o["test"] = "" if not ts else "several" if len(ts) > 1 else {"ok": "ok", "FAILED": "failed"}[ts[0][1]]
        obs.append(o)
    c.cov["definitions"] = len(defs)
    c.cov["rejected"] = len(bad)
    c.cov["generated_tests"] = len(tests)
    c.samples += [rust(defs[-1]), rust(defs[-2])]
    c.judge("SyntaxRulesCheck", "Cases.cfg", obs, stage="definitions", describe=lambda o: rust(defs[o["id"]]).replace("\n", " "))


def norm(v):
    if "spans" in v:
        pos = lambda s: {"lo": s[0], "hi": s[1]}
        return {"spans": [pos(s) for s in v["spans"]], "got": pos(v["got"])}
    return v
