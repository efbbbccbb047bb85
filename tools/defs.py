"""Lexicon definitions, valid and not, and what the compiler says about them (C28)."""
import copy, itertools, json, os, random, shutil, subprocess
import vlib
from lexicons import parse_regex, rstr
from vlib import SEED, VERIF, thorough, log, cargo_env, ToolError

# every variant has its own alphabet, so that patterns of different types never tie
ALPHA = ["ab", "cd", "ef", "gh"]
# x, y: the letters of the variant
SHAPES = ["x", "x+", "[xy]+", "x[xy]*", "xy", "xy?x?", "(xy|x)", "x|xy", "xy*", "(xx|y)x?", "x[0-9]*", "xé|xéy", "→x+", "(x|xx|xxx)y?",
          "y", "yx+", "[xy][xy][xy]", "x[^ ]?", "xyxy|xy"]
TEXTS = ["x", "xx", "xy", "y", "yx", "xyx", "xxx", "x1", "x12", "xé", "xéy", "→x", "yxx", "xxy", "xyxy", "xyy", "x→"]
EMPTY = ["x*", "(xy)?", "x*y*", "", "x?", "[xy]*", "x|", "(x|y?)", "(x*)(y*)"]
BAD = ["[x", "(x", "x)", "*x", "x**y(", "[y-x]", "x{2,1}", "(?P<x", "\\\\q["]


def pat(rng, i, pool):
    x, y = ALPHA[i]
    s = rng.choice(pool)
    return s.replace("x", x).replace("y", y)


def text(rng, i):
    x, y = ALPHA[i]
    return rng.choice(TEXTS).replace("x", x).replace("y", y)


def matches(p, t):
    import re
    return re.fullmatch(p, t) is not None


def valid_variant(rng, i):
    """mostly valid; repair is not needed, the specification decides"""
    v = {"regex": None, "terms": [], "fields": "", "repeat": None, "order": rng.random() < 0.5, "split": rng.random() < 0.4}
    kind = rng.choice(["regex", "regex", "regex+lits", "regex+lits", "lits", "extract", "semantic", "free"])
    if kind == "semantic":
        return v
    if kind in ("regex", "regex+lits", "extract"):
        v["regex"] = [pat(rng, i, SHAPES)]
        if kind == "regex" and rng.random() < 0.2:
            v["regex"] = [pat(rng, i, ["x[0-9]+"]), pat(rng, i, ["yx", "yxx"])]
    if kind in ("regex", "regex+lits", "free"):
        v["terms"] = [None]
    if kind == "regex+lits":
        ls = {text(rng, i) for _ in range(12)}
        ls = [l for l in sorted(ls) if matches(v["regex"][0], l)]
        v["terms"] += rng.sample(ls, min(len(ls), rng.randint(1, 3)))
        rng.shuffle(v["terms"])
    if kind == "lits":
        ls = sorted({text(rng, i) for _ in range(12)})
        v["terms"] = rng.sample(ls, rng.randint(1, 4))
    if kind == "free" and rng.random() < 0.5:
        v["terms"] += [text(rng, i)]
        rng.shuffle(v["terms"])
    if kind == "extract" and rng.random() < 0.3:
        v["emptylist"] = True
    return v


def spoil(rng, v, i):
    k = rng.choice(["bad", "empty", "notext", "dup", "twofree", "nomatch", "nomatch", "redundant", "fields", "repeat", "more"])
    ins = lambda t: v["terms"].insert(rng.randint(0, len(v["terms"])), t)
    if k in ("bad", "empty"):
        v["regex"] = v["regex"] or []
        v["regex"].insert(rng.randint(0, len(v["regex"])), pat(rng, i, BAD if k == "bad" else EMPTY))
        if None not in v["terms"] and v["terms"]:
            ins(None)
    elif k == "notext":
        ins("")
    elif k == "dup":
        t = rng.choice([t for t in v["terms"] if t] or [text(rng, i)])
        if t not in v["terms"]:
            ins(t)
        ins(t)
    elif k == "twofree":
        while v["terms"].count(None) < 2:
            ins(None)
    elif k == "nomatch":
        v["regex"] = v["regex"] or [pat(rng, i, SHAPES)]
        if None not in v["terms"]:
            ins(None)
        t = text(rng, i)
        if t not in v["terms"]:
            ins(t)
    elif k == "redundant":
        v["regex"] = [pat(rng, i, SHAPES)]
        v["terms"] = [t for t in v["terms"] if t] or [text(rng, i)]
    elif k == "fields":
        v["fields"] = rng.choice(["(u32)", " { a: u8 }", "()", " {}"])
    elif k == "repeat":
        v["repeat"] = rng.choice(["regex", "terminal"])
        if v["repeat"] == "regex":
            v["regex"] = v["regex"] or [pat(rng, i, SHAPES)]
            v["terms"] = [None]
        else:
            v["terms"] = [None]
            v["regex"] = v["regex"] or [pat(rng, i, SHAPES)]
    else:
        a, b = [("x[0-9]+", "yx*"), ("yy*", "x"), ("xy", "xx+"), ("é[xy]", "x|xy")][rng.randrange(4)]
        v["regex"] = [pat(rng, i, [a]), pat(rng, i, [b])]
        v["terms"] = [None, text(rng, i)]
        rng.shuffle(v["regex"])


IGNORES = [[], [" +"], [r"\s+"], [" ", "#[0-9]*;"]]


def random_def(rng):
    n = rng.choice([1, 1, 2, 3, 4])
    d = {"variants": [valid_variant(rng, i) for i in range(n)], "ignore": list(rng.choice(IGNORES)), "enum": True, "generic": False}
    for _ in range(rng.choice([0, 0, 0, 1, 1, 1, 1, 2])):
        if rng.random() < 0.1:
            d["ignore"].insert(rng.randint(0, len(d["ignore"])), rng.choice(["[ ", " *", "( ", "", "( |#)?"]))
        elif rng.random() < 0.03:
            d[rng.choice(["enum", "generic"])] ^= True
        else:
            i = rng.randrange(n)
            spoil(rng, d["variants"][i], i)
    return d


def sized(rng, n, spoiled=False):
    vs = [{"regex": None, "terms": [], "fields": "", "repeat": None, "order": True, "split": False} for _ in range(n)]
    if n and n <= 128:
        vs[rng.randrange(n)]["terms"] = ["abc"]
    return {"variants": vs, "ignore": [" "], "enum": True, "generic": False}


def exhaustive(rng):
    """one variant: every sequence of up to three terminals, with and without a pattern"""
    out = []
    for n in range(4):
        for ts in itertools.product([None, "ab", "a", ""], repeat=n):
            for rx in (None, ["[ab]+"], ["ab"], ["a"], ["a|ab"], ["ab|a"], ["b"]):
                d = sized(rng, 1)
                d["variants"][0] = {"regex": rx, "terms": list(ts), "fields": "", "repeat": None, "order": len(out) % 2 == 0, "split": False}
                out.append(d)
    # texts with characters of two, three and four bytes
    for n in range(3):
        for ts in itertools.product([None, "éx", "→é", "x😀y"], repeat=n):
            for rx in ([["é"], ["é|→é"], ["éx?"], ["(→|é)x?"], ["→é|éx|x😀"], ["x😀y?"], ["x"], ["[é→x😀y]+"], ["éx|x😀y"]] if n else []):
                d = sized(rng, 1)
                d["variants"][0] = {"regex": rx, "terms": list(ts), "fields": "", "repeat": None, "order": len(out) % 2 == 0, "split": False}
                out.append(d)
    return out


def pattern(p):
    try:
        import re
        re.compile(p)
        ok = p not in ("x{2,1}",)
    except re.error:
        ok = False
    return {"bad": not ok, "p": parse_regex(p) if ok else {"k": "lit", "cs": ["?"]}}


def spec(d):
    vs = []
    for v in d["variants"]:
        vs.append({"unit": v["fields"] == "", "repeated": v["repeat"] is not None,
                   "regex": [] if v["regex"] is None else [[pattern(p) for p in v["regex"]]],
                   "terms": [[] if t is None else [list(t)] for t in v["terms"]]})
    return {"enum": d["enum"], "generic": d["generic"], "ignore": [pattern(p) for p in d["ignore"]], "variants": vs}


def rust(d):
    o = ["#[derive_lexicon]"]
    if d["ignore"]:
        o.append("#[teleparse(ignore(" + ", ".join(rstr(p) for p in d["ignore"]) + "))]")
    if not d["enum"]:
        o.append("pub struct L { a: u8 }")
        return "\n".join(o)
    o.append("pub enum L" + ("<T>" if d["generic"] else "") + " {")
    k = 0
    for i, v in enumerate(d["variants"]):
        attrs = []
        if v["regex"] is not None:
            attrs.append("regex(" + ", ".join(rstr(p) for p in v["regex"]) + ")")
        if v["terms"] or v.get("emptylist"):
            ts = []
            for t in v["terms"]:
                k += 1
                ts.append(f"X{k}" if t is None else f"X{k} = {rstr(t)}")
            attrs.append("terminal(" + ", ".join(ts) + ")")
        if v["repeat"] == "regex":
            attrs.append('regex("q")')
        if v["repeat"] == "terminal":
            attrs.append('terminal(Again = "again")')
        if not v["order"]:
            attrs.reverse()
        if attrs:
            o += [f"#[teleparse({a})]" for a in attrs] if v["split"] else [f"#[teleparse({', '.join(attrs)})]"]
        o.append(f"V{i}{v['fields']},")
    if d["generic"]:
        o.append("G(std::marker::PhantomData<T>),")
    o.append("}")
    return "\n".join(o)


def crate(c, name, main):
    """a program against /repo in the check's scratch directory"""
    d = os.path.join(c.dir, name)
    os.makedirs(os.path.join(d, "src"), exist_ok=True)
    pkg = "defs-" + name
    open(os.path.join(d, "Cargo.toml"), "w").write(open(os.path.join(VERIF, "harness", "gram", "Cargo.toml")).read()
                                                   .replace("gram-harness", pkg))
    lock = open(os.path.join(VERIF, "harness", "gram", "Cargo.lock")).read()
    open(os.path.join(d, "Cargo.lock"), "w").write(lock.replace('name = "gram-harness"', f'name = "{pkg}"'))
    open(os.path.join(d, "src", "main.rs"), "w").write(main)
    return d


def compile_defs(c, defs, name, text=None, common=""):
    """indices of the definitions the compiler has errors about"""
    text = text or (lambda x: "use teleparse::prelude::*;\n" + rust(x))
    o, first = ["#![allow(dead_code, unused, non_camel_case_types, private_interfaces)]" + common], []
    line = o[0].count("\n") + 1
    for i, x in enumerate(defs):
        first.append(line + 1)
        t = f"mod d{i} {{ {text(x)}\n}}"
        line += t.count("\n") + 1
        o.append(t)
    o.append("fn main() {}")
    d = crate(c, name, "\n".join(o) + "\n")
    r = subprocess.run(["cargo", "check", "--offline", "-q", "--message-format=json"], cwd=d, env=cargo_env(), capture_output=True, text=True)
    bad, orphan = set(), []
    import bisect
    for l in r.stdout.splitlines():
        m = json.loads(l)
        if m.get("reason") != "compiler-message" or m["message"]["level"] != "error":
            continue
        where = set()

        def span(s):
            if s["file_name"].endswith("src/main.rs"):
                where.add(bisect.bisect_right(first, s["line_start"]) - 1)
            elif s.get("expansion"):
                span(s["expansion"]["span"])
        for s in m["message"]["spans"]:
            span(s)
        if where:
            bad |= where
        elif "aborting" not in m["message"]["message"]:
            orphan.append(m["message"]["message"])
    if orphan or (r.returncode != 0 and not bad):
        print(r.stderr[-3000:], orphan[:3])
        raise ToolError("the compiler's errors about lexicon definitions cannot be attributed")
    return bad


def defs_stage(c):
    rng = random.Random(f"{SEED}-{c.pid}")
    defs = exhaustive(rng) + [sized(rng, n) for n in (0, 1, 2, 8, 9, 16, 17, 32, 33, 64, 65, 127, 128, 129, 130)]
    defs += [random_def(rng) for _ in range(6000 if thorough() else 1200)]
    bad = compile_defs(c, defs, "all")
    log(f"{len(defs)} definitions compiled, {len(bad)} rejected")
    # errors behind macro expansion only show in a program without the rejected ones
    rest = [i for i in range(len(defs)) if i not in bad]
    more = compile_defs(c, [defs[i] for i in rest], "accepted")
    bad |= {rest[j] for j in more}
    log(f"{len(more)} more rejected on their own")
    obs = [{"id": i, "def": spec(d), "accepted": i not in bad} for i, d in enumerate(defs)]
    c.cov["definitions"] = len(defs)
    c.cov["rejected"] = len(bad)
    c.samples += [rust(defs[-1]), rust(defs[-2])]
    c.judge("LexiconRulesCheck", "Cases.cfg", obs, stage="definitions", describe=lambda o: rust(defs[o["id"]]).replace("\n", " "))
