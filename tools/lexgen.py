"""Random lexicons for the lexer checks."""
import random
from lexicons import Lexicon, LEX, rstr, parse_regex

# patterns without a repetition before their first possible end (see known_findings.txt)
REGEX = ["[ab]+", "[a-c][a-c0-9]*", "[01]+", "=[>=]?", "[01]+(=[01]+)?", "ab?c?", "[^ab01= ]", "é+", "[é→]",
         "→[ab]*", "[bc][01]?", "==(=|>)?", "b", "é[ab]?", "1[^1]", "[ac][01][01]?", "#[a-c]*"]
LITS = ["a", "b", "c", "ab", "ba", "abc", "aab", "=", "==", "=>", "==>", ">", "0", "01", "é", "éa", "→", "→→", "#", "1=", "é→a"]
IGNORE = [[], [" +"], [" "], [r"\s+"], [" +", "#[a-c]*"], ["#[^#]", " "]]
CHARS = ["a", "b", "c", "0", "1", "=", ">", "é", "→", "#", " "]


def full(regex, s):
    import re
    m = re.compile(regex).match(s)
    return m is not None and m.end() == len(s)


def random_lexicon(rng, name):
    types, used = [], set()
    for i in range(rng.randint(1, 5)):
        n = f"T{i}"
        r = rng.random()
        if r < 0.12:
            types.append((n, [], []))  # never lexed
        elif r < 0.5:
            ls = [l for l in rng.sample(LITS, rng.randint(1, 3)) if l not in used]
            used |= set(ls)
            if ls:
                types.append((n, [], [(f"X{i}{j}", l) for j, l in enumerate(ls)]))
        else:
            rs = [x for x in rng.sample(REGEX, rng.choice([1, 1, 1, 2])) if x not in used]
            used |= set(rs)
            if not rs:
                continue
            ts = []
            if rng.random() < 0.75:
                ts.append((f"X{i}", None))
                ls = [l for l in rng.sample(LITS, 3) if all(full(x, l) for x in rs)]
                ts += [(f"X{i}{j}", l) for j, l in enumerate(ls)]
            types.append((n, rs, ts))
    if not any(rs or ts for _, rs, ts in types):
        return random_lexicon(rng, name)
    return Lexicon(name, types, rng.choice(IGNORE))


def rust(lexes):
    o = ["// generated from tools/lexgen.py", "#![allow(dead_code)]", "mod rt;"]
    first = {}
    for i, l in enumerate(lexes, 1):
        first[sum(x.count("\n") + 1 for x in o) + 1] = i
        o.append(f"mod l{i} {{\nuse teleparse::prelude::*;\n{l.rust()}\n}}")
    o.append("fn run(lex: usize, src: &str) -> String { match lex {")
    for i, _ in enumerate(lexes, 1):
        o.append(f"{i} => rt::read::<l{i}::Ty>(src, 1),")
    o.append("_ => unreachable!() } }\nfn main() { rt::main_loop(run) }")
    return "\n".join(o) + "\n", first


def alphabet(lex):
    """characters that matter to a lexicon, and one that does not"""
    cs = []
    for r in lex.rules():
        def walk(p):
            if p["k"] in ("lit", "in", "notin"):
                for c in p["cs"][:3]:
                    if c not in cs:
                        cs.append(c)
            for q in p.get("ps", []):
                walk(q)
        walk(r["p"])
    return cs


def texts(lex, rng, n, maxlen):
    pool = alphabet(lex) + [rng.choice(CHARS), "\U0001F600", " "]
    lits = [l for _, l in lex.lits()] + pool
    out = []
    for _ in range(n):
        s = ""
        while len(s) < rng.randint(0, maxlen):
            s += rng.choice(lits) if rng.random() < 0.5 else rng.choice(pool)
        out.append(s)
    return out
