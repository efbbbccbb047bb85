"""The stages about tables: stored tokens (C25), sets of token types (C26), sets of terminals (C27)."""
import itertools, os, random, shutil
import vlib
from vlib import SEED, VERIF, thorough, log, run_driver, cargo_build


def build(c, sizes=(1,)):
    """The driver, with one lexicon per size."""
    d = os.path.join(c.dir, "tables")
    os.makedirs(os.path.join(d, "src"), exist_ok=True)
    src = os.path.join(VERIF, "harness", "tables")
    shutil.copy(os.path.join(src, "Cargo.toml"), d)
    shutil.copy(os.path.join(src, "src", "rt.rs"), os.path.join(d, "src"))
    lock = open(os.path.join(VERIF, "harness", "gram", "Cargo.lock")).read()
    open(os.path.join(d, "Cargo.lock"), "w").write(lock.replace('name = "gram-harness"', 'name = "tables-harness"'))
    rng = random.Random(f"{SEED}-{c.pid}-sizes")
    o = ["// generated from tools/tables.py", "#![allow(dead_code)]", "mod rt;"]
    for n in sizes:
        lexed = set(rng.sample(range(n), min(n, rng.choice([0, 1, 2, 5]))))
        o.append(f"mod s{n} {{\nuse teleparse::prelude::*;\n#[derive_lexicon]\n#[teleparse(ignore(\" +\"))]\npub enum L {{")
        for i in range(n):
            if i in lexed:
                o.append(f'#[teleparse(terminal(X{i} = "t{i};"))]')
            o.append(f"V{i},")
        o.append("}\n}")
    o.append("fn sized(n: usize, ops: Option<&[&str]>) -> String { match (n, ops) {")
    for n in sizes:
        o.append(f"({n}, None) => rt::lexicon::<s{n}::L>({n}), ({n}, Some(o)) => rt::bits_history::<s{n}::L>({n}, o),")
    o.append("_ => unreachable!() } }\nfn main() { rt::main_loop(sized) }")
    open(os.path.join(d, "src", "main.rs"), "w").write("\n".join(o) + "\n")
    return cargo_build(d)


def run(c, exe, jobs, stage, module):
    """jobs: (line, ops or None)"""
    path = os.path.join(c.dir, stage + ".txt")
    with open(path, "w") as f:
        f.write("\n".join(l for l, _ in jobs) + "\n")
    obs = run_driver(lambda s: [exe, path, str(s)], lambda i, how: {"id": i, "end": how, "k": jobs[i][0].split("\t")[0]})
    for o in obs:
        if jobs[o["id"]][1] is not None:
            o["ops"] = jobs[o["id"]][1]
    c.samples += [jobs[0][0], jobs[-1][0]]
    c.judge(module, "Cases.cfg", obs, stage=stage, describe=lambda o: jobs[o["id"]][0].replace("\t", " | "))
    return obs


# ---------------------------------------------------------------- C25
def layouts(width, maxn):
    """all sequences of disjoint non-empty intervals in 0..width"""
    out = [[]]
    last = [[]]
    for _ in range(maxn):
        last = [s + [(lo, hi)] for s in last for lo in range(s[-1][1] if s else 0, width) for hi in range(lo + 1, width + 1)]
        out += last
    return out


def table_stage(c):
    rng = random.Random(f"{SEED}-{c.pid}")
    exe = build(c)
    width = 8 if thorough() else 6
    jobs = []

    def tok(s):
        return ";".join(f"{rng.choice('AB')},{lo},{hi}" for lo, hi in s)
    for s in layouts(width, 4):
        for _ in range(2 if s else 1):
            jobs.append((f"layout\t{tok(s)}\tmax{width + 1}", None))
    for _ in range(600 if thorough() else 150):
        n, p, s = rng.randint(5, 40), rng.choice([0, 0, 3]), []
        for _ in range(n):
            p += rng.choice([0, 0, 1, 2, 5])
            h = p + rng.randint(1, 4)
            s.append((p, h))
            p = h
        edges = [e for x in s for e in x] + [0, p, p + 1, p + 9]
        pts = lambda: max(0, rng.choice(edges) + rng.choice([0, 0, 0, 1, -1]))
        jobs.append((f"layout\t{tok(s)}\t" + ";".join(f"{pts()},{pts()}" for _ in range(60)), None))
    # growing and marking
    for _ in range(12000 if thorough() else 2500):
        p, ops, lines = 0, [], []
        edges = [0]
        for _ in range(rng.randint(2, 14)):
            k = rng.choice(["push", "push", "push", "in", "ov", "end", "beg", "all", "in", "ov"])
            sub = lambda: rng.sample(["A", "B", "S", "R"], rng.choice([0, 1, 1, 2]))
            types, want = sub(), rng.sample(["A", "B"], rng.choice([0, 1, 1, 2]))
            if k == "beg":
                want = rng.sample(["A", "B", "S", "R"], rng.choice([0, 1, 1, 1]))
            pts = lambda: max(0, rng.choice(edges) + rng.choice([0, 0, 0, 1, -1]))
            lo, hi = pts(), pts()
            if k == "push":
                lo = p + rng.choice([0, 0, 1, 2])
                hi = p = lo + rng.randint(1, 3)
                edges += [lo, hi]
                ty = rng.choice("AB")
                ops.append({"k": k, "ty": ty, "lo": lo, "hi": hi})
                lines.append(f"push {ty} {lo} {hi}")
                continue
            ops.append({"k": k, "lo": lo, "hi": hi, "types": types, "want": want})
            t, w = "+".join(types), "+".join(want)
            lines.append({"in": f"in {lo} {hi} {t}", "ov": f"ov {lo} {hi} {t}", "end": f"end {lo} {w} {t}",
                          "beg": f"beg {lo} {w} {t}", "all": f"all {t}"}[k])
        jobs.append(("table\t" + "\t".join(lines), ops))
    model(c, "TokenTableModel")
    obs = run(c, exe, jobs, "table", "TableCheck")
    log(f"{len(obs)} layouts and histories")
    c.cov["queries"] = sum(len(o.get("q", [])) + len(o.get("p", [])) for o in obs)


def model(c, module):
    """A model of the specification itself, explored in full."""
    r = vlib.tlc(module, module + ".cfg", {"PID": c.pid})
    c.add_tlc(r, 0, module)
    if r.violated:
        raise vlib.ToolError(f"{module} does not hold of the specification\n{r.output[-3000:]}")


# ---------------------------------------------------------------- C26
SIZES = [1, 2, 3, 4, 7, 8, 9, 10, 15, 16, 17, 24, 31, 32, 33, 34, 40, 48, 63, 64, 65, 66, 96, 100, 126, 127, 128]


def sets_stage(c):
    rng = random.Random(f"{SEED}-{c.pid}")
    sizes = list(range(1, 129)) if thorough() else sorted(set(SIZES + rng.sample(range(1, 129), 6)))
    exe = build(c, sizes)
    jobs = [(f"lexicon\t{n}", None) for n in sizes]

    def job(n, ops):
        line = "\t".join(" ".join(str(x) for x in [o["k"]] + ([o["i"]] if "i" in o else []) + ([o["v"]] if "v" in o else [])) for o in ops)
        jobs.append((f"bits\t{n}\t{line}", ops))
    for n in sizes:
        # every type on its own, and every pair of a few
        for i in range(n):
            job(n, [{"k": "+", "i": i}, {"k": "s"}, {"k": "b"}, {"k": "r"}, {"k": "m", "i": i, "v": i + 1}, {"k": "-", "i": i}])
        few = rng.sample(range(n), min(n, 4)) + [0, n - 1]
        for i, j in itertools.product(sorted(set(few)), repeat=2):
            job(n, [{"k": "+", "i": i}, {"k": "s"}, {"k": "+", "i": j}, {"k": "b"}, {"k": "-", "i": i}, {"k": "z", "i": j, "v": 5}])
        job(n, [{"k": "+", "i": i} for i in range(n)] + [{"k": "-", "i": i} for i in rng.sample(range(n), n)])
        for _ in range(60 if thorough() else 15):
            ops = []
            for _ in range(rng.randint(3, 12)):
                k = rng.choice("+++--bsrmz")
                o = {"k": k}
                if k in "+-mz":
                    o["i"] = rng.choice([rng.randrange(n), n - 1, rng.choice(few)])
                if k in "mz":
                    o["v"] = rng.randint(0, 9)
                ops.append(o)
            job(n, ops)
    # every short history over the smallest lexicons
    for n in (1, 2, 3):
        al = [{"k": k, "i": i} for k in "+-" for i in range(n)] + [{"k": "b"}, {"k": "s"}, {"k": "r"}]
        for h in itertools.product(al, repeat=3 + (n < 3)):
            job(n, list(h))
    obs = run(c, exe, jobs, "sets", "TypeSetsCheck")
    log(f"{len(obs)} histories over {len(sizes)} lexicons")
    c.cov["lexicon_sizes"] = sizes


# ---------------------------------------------------------------- C27
def terms_stage(c):
    rng = random.Random(f"{SEED}-{c.pid}")
    exe = build(c)
    jobs = []

    def show(o):
        return " ".join([o["k"]] + [o[x] for x in ("ty", "lit") if x in o] + list(o.get("lits", [])))

    def job(kind, ops):
        jobs.append(("\t".join((["terms", kind] if kind else ["lits"]) + [show(o) for o in ops]), ops))
    one = [[], ["x"], ["y"], ["x", "y"], ["x", "z"], ["*"], ["*", "x"], ["x", "*"], ["x", "y", "z"]]

    def make(e, a, b):
        return ([{"k": "e"}] if e else []) + [{"k": "ins", "ty": "A", "lit": l} for l in a] + [{"k": "ins", "ty": "B", "lit": l} for l in b]
    sets = [make(e, a, b) for e in (0, 1) for a in one for b in one]
    pairs = list(itertools.product(sets, sets))
    if not thorough():
        pairs = rng.sample(pairs, 4500)
    for x, y in pairs:
        kind = rng.choice(["term", "first", "follow"])
        tail = [{"k": rng.choice(["uni", "unine"])}, {"k": "swap"}, {"k": rng.choice(["uni", "unine"])}]
        job(kind, x + [{"k": "swap"}] + y + tail)
    # all short histories on one type, random ones on both
    for kind in ("term", "first", "follow"):
        al = [{"k": "ins", "ty": "A", "lit": l} for l in ("x", "*")] + [{"k": "e"}, {"k": "uni"}, {"k": "unine"}, {"k": "swap"}]
        al += {"term": [{"k": "-e"}, {"k": "clear"}], "first": [{"k": "clear"}], "follow": []}[kind]
        for h in itertools.product(al, repeat=5 if thorough() else 4):
            job(kind, list(h))
        for _ in range(8000 if thorough() else 800):
            full = al + [{"k": "ins", "ty": t, "lit": l} for t in "AB" for l in "xyz*"]
            job(kind, [rng.choice(full) for _ in range(rng.randint(4, 12))])
    al = [{"k": "ins", "lit": l} for l in "xy"] + [{"k": k} for k in ("any", "clear", "uni", "meet", "swap", "universe")] \
        + [{"k": "of", "lits": l} for l in ([], ["x", "y"], ["z", "z"])]
    for h in itertools.product(al, repeat=4 if thorough() else 3):
        job(None, list(h))
    for _ in range(8000 if thorough() else 1500):
        job(None, [rng.choice(al) for _ in range(rng.randint(4, 12))])
    model(c, "TermSetsModel")
    obs = run(c, exe, jobs, "terminals", "TermSetsCheck")
    log(f"{len(obs)} histories")
