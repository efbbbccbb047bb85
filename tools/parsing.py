"""The stages that run the real parser: generated grammars, inputs and call histories."""
import json, os, random, re, shutil
import corpus, vlib
from vlib import SEED, VERIF, thorough, log, run_driver, cargo_build

PLAIN = {"tok", "struct", "enum", "tuple", "box"}
OPTS = {"opt", "star", "exists", "plus"}
# the constructs a property's grammars must use, and those they may use besides
FOCUS = {
    "C12": (set(), PLAIN | {"opt", "star"}),
    "C13": ({"opt", "exists"}, PLAIN | {"opt", "exists", "star"}),
    "C14": ({"star", "plus"}, PLAIN | {"opt", "star", "plus"}),
    "C15": ({"loop"}, PLAIN | OPTS | {"loop"}),
    "C16": ({"split"}, PLAIN | {"opt", "star", "split"}),
    "C17": ({"punct"}, PLAIN | {"opt", "star", "punct"}),
    "C18": ({"recover"}, PLAIN | {"opt", "star", "recover"}),
    "C21": ({"quote", "num", "box"}, PLAIN | OPTS | {"quote", "num", "split", "punct"}),
    "C06": ({"enum"}, PLAIN | {"opt", "star"}),
}


def wants(pid):
    if pid not in FOCUS:
        return lambda kinds: True
    must, may = FOCUS[pid]
    return lambda kinds: kinds <= may and (not must or kinds & must)


class ParseHarness:
    """A generated crate with one module per grammar, built against /repo."""

    def __init__(self, c, units, once=False, light=False):
        self.c = c
        self.corpus = corpus.Corpus(units)
        d = os.path.join(c.dir, "parse")
        os.makedirs(os.path.join(d, "src"), exist_ok=True)
        src = os.path.join(VERIF, "harness", "parse")
        shutil.copy(os.path.join(src, "Cargo.toml"), d)
        shutil.copy(os.path.join(VERIF, "harness", "gram", "Cargo.lock"), d)
        shutil.copy(os.path.join(src, "src", "rt.rs"), os.path.join(d, "src"))
        with open(os.path.join(d, "src", "main.rs"), "w") as f:
            f.write(self.corpus.rust(once, light))
        if once:
            shutil.copy(os.path.join(src, "src", "once.rs"), os.path.join(d, "src"))
        lock = os.path.join(d, "Cargo.lock")
        text = open(lock).read().replace('name = "gram-harness"', 'name = "parse-harness"')
        open(lock, "w").write(text)
        self.table = os.path.join(c.dir, "grammars.json")
        with open(self.table, "w") as f:
            json.dump(self.corpus.table(), f, ensure_ascii=False)
        self.exe = cargo_build(d)

    def show(self, g):
        lex, types = self.corpus.units[self.corpus.owner[g - 1][0]]
        return lex.name + ": " + corpus.show_types(types).replace("\n", " ## ")

    def verdicts(self):
        return run_driver(lambda s: [self.exe, "verdicts", str(s)], lambda i, how: {"id": i, "v": how, "asserts": False})

    def tables(self):
        return run_driver(lambda s: [self.exe, str(s)], lambda i, how: {"id": i, "end": how})

    def run(self, lines, name):
        path = os.path.join(self.c.dir, name + ".txt")
        with open(path, "w") as f:
            f.write("\n".join(lines) + "\n")
        return run_driver(lambda s: [self.exe, path, str(s)], lambda i, how: {"id": i, "end": how})


def describe(h):
    def f(o):
        if "in" not in o:
            return ""
        what = h.show(o["plan"][0]) if o.get("plan") else "calls"
        return f"{what} on {json.dumps(''.join(o['in']), ensure_ascii=False)}"
    return f


def units_for(c, hand, nrand, rejected=0, want=None, lexs=(0, 0, 0, 0, 1, 3), loose=False):
    rng = random.Random(f"{SEED}-{c.pid}-units")
    want = want or wants(c.pid)
    out = []
    import grammars
    for tags, lex, text in grammars.G:
        types = corpus.parse_types(text)
        if hand(tags, corpus.Corpus([(lex, types)])):
            out.append((lex, types))
    nh = len(out)
    out += corpus.random_units(rng, nrand, want=want, lexs=lexs, rejected=rejected, loose=loose)
    return out, nh


def parse_stage(c, nrand=60, cap=400, ntext=120, wild=0, rejected=0, plans=0, hand=None, stage="parse"):
    """Parse everything with fresh parsers and judge every observation with ParseCheck."""
    k = 6 if thorough() else 1
    w = wants(c.pid)
    hand = hand or (lambda tags, cp: c.pid in tags or ("C01" not in tags and c.pid in FOCUS and w(cp.kinds(1)))
                    or (c.pid not in FOCUS and "C01" not in tags))
    units, nh = units_for(c, hand, nrand * (3 if thorough() else 1), rejected)
    h = ParseHarness(c, units)
    cp = h.corpus
    rng = random.Random(f"{SEED}-{c.pid}-inputs")
    lines = []
    for g in range(1, len(cp.roots) + 1):
        if rejected and not cp.ll1(g):
            lines += ["\t".join(["text", str(cp.roots[g - 1]["lex"]), str(g), t]) for t in ("", "x 7", "let x = 7;") if cp.lexicon(g).name != "LD"]
            continue
        l, _ = corpus.jobs(cp, g, rng, cap * k, ntext * k)
        lines += l
        if wild:
            lines += corpus.wild_jobs(cp, g, rng, wild * k)
    if plans:
        lines += plan_jobs(cp, rng, plans * k)
    obs = h.run(lines, stage)
    log(f"{len(obs)} parses with {len(cp.roots)} roots ({nh} written by hand)")
    c.cov["roots"] = len(cp.roots)
    c.samples += [h.show(g) for g in (1, len(cp.roots))]
    c.judge("ParseCheck", "Cases.cfg", obs, env={"GRAMMARS": h.table}, stage=stage, describe=describe(h))
    return h, obs


def terminal_list(lex, text):
    """the terminals of a list in a report"""
    known = sorted(([n for n, _, _ in lex.types] + ['"' + l + '"' for _, l in lex.lits()] + ["<empty>"]), key=len, reverse=True)

    def go(s):
        for k in known:
            if s == k:
                return [k]
            if s.startswith(k + ", "):
                rest = go(s[len(k) + 2:])
                if rest is not None:
                    return [k] + rest
        return None
    return [] if text == "" else go(text) or ["unreadable: " + text]


def roots_stage(c, nrand=70, rejected=110):
    """The analysis of compiled roots: their tables, or the report."""
    k = 3 if thorough() else 1
    units, nh = units_for(c, lambda tags, cp: True, nrand * k, rejected * k, want=lambda kinds: True, loose=True)
    h = ParseHarness(c, units, light=True)
    obs = h.tables()
    for o in obs:
        g = o["g"] = o["id"] + 1
        if "runs" not in o:
            o.update(runs=[{"v": o.pop("end", "panic"), "f": [], "terms": [], "sets": []}], probes=[], says=True)
            continue
        for r in o["runs"]:
            r["terms"] = terminal_list(h.corpus.lexicon(g), "".join(r["terms"]))
        r = o["runs"][0]
        words = r["f"] + ([", ".join(r["terms"])] if r["terms"] else [])
        shown, said = o.pop("shown"), o.pop("said")
        o["says"] = r["v"] == "ok" and shown == "" or all(w in shown for w in words) and shown in said and o["root"] in said
    verdicts = {}
    for o in obs:
        for r in o["runs"]:
            verdicts[r["v"]] = verdicts.get(r["v"], 0) + 1
    log(f"{len(obs)} compiled roots ({nh} written by hand): {verdicts}")
    c.cov["roots"] = len(obs)
    c.cov["root_verdicts"] = verdicts
    c.judge("RootCheck", "Cases.cfg", obs, env={"GRAMMARS": h.table}, stage="roots", describe=lambda o: h.show(o["id"] + 1))
    return h


def trivia_stage(c, nrand=100, pairs=50):
    """The same tokens twice, with different text between them (TriviaCheck)."""
    k = 6 if thorough() else 1
    units, nh = units_for(c, lambda tags, cp: "C01" not in tags, nrand * (3 if thorough() else 1))
    h = ParseHarness(c, units)
    rng = random.Random(f"{SEED}-{c.pid}-pairs")
    lines = []
    for g in range(1, len(h.corpus.roots) + 1):
        lines += corpus.twins(h.corpus, g, rng, pairs * k)
    obs = h.run(lines, "pairs")
    byid = {o["id"]: o for o in obs}
    got = [{"id": i, "a": byid[2 * i], "b": byid[2 * i + 1]} for i in range(len(lines) // 2) if 2 * i in byid and 2 * i + 1 in byid]
    log(f"{len(got)} pairs with {len(h.corpus.roots)} roots ({nh} written by hand)")
    c.cov["roots"] = len(h.corpus.roots)
    c.samples += [h.show(g) for g in (1, len(h.corpus.roots))]
    d = describe(h)
    c.judge("TriviaCheck", "Cases.cfg", got, env={"GRAMMARS": h.table}, stage="pairs", traces=2 * len(got),
            describe=lambda o: d(o["a"]) + " and " + d(o["b"]))


def plan_jobs(cp, rng, count):
    """several roots parsed one after another on one text"""
    bylex = {}
    for g in range(1, len(cp.roots) + 1):
        bylex.setdefault(cp.roots[g - 1]["lex"], []).append(g)
    out = []
    for _ in range(count):
        li = rng.choice(list(bylex) + [1, 1])
        gs = [rng.choice(bylex[li]) for _ in range(rng.randint(2, 4))]
        if rng.random() < 0.4:
            gs = [rng.choice(gs) for _ in gs]
        lex = corpus.LEX[li - 1]
        s = []
        for g in gs:
            s += corpus.mutate(cp.sentence(g, rng, rng.randint(1, 6)), rng, cp.terminals(g), list(lex.terminals))
        text = corpus.render(s, lex, rng, rng.random() < 0.6)
        out.append("\t".join(["text", str(li), ",".join(map(str, gs)), text.replace("\n", "\\n")]))
    return out


def session_stage(c, h, count, length, stage="session"):
    k = 6 if thorough() else 1
    rng = random.Random(f"{SEED}-{c.pid}-session")
    lines, calls = corpus.session_jobs(h.corpus, rng, count * k)
    if length:
        a, b = corpus.short_histories(h.corpus, rng, length + (1 if thorough() else 0), ["", "x + 7;", "#a @x+ ?#b 7"])
        lines, calls = lines + a, calls + b
    obs = h.run(lines, stage)
    for o in obs:
        o["ops"] = calls[o["id"]]
        o.pop("plan", None)
    log(f"{len(obs)} call histories, {sum(len(o['ops']) for o in obs)} calls")
    c.judge("SessionCheck", "Cases.cfg", obs, env={"GRAMMARS": h.table}, stage=stage,
            describe=lambda o: " ".join(lines[o["id"]].split("\t")[1:]))


def transitions_stage(c, h, count, stage="transitions"):
    """Every transition of the model of call histories on a few texts, replayed on the real parser."""
    k = 4 if thorough() else 1
    rng = random.Random(f"{SEED}-{c.pid}-scenes")
    scenes, words, texts = corpus.scenes(h.corpus, rng, count * k)
    path = os.path.join(c.dir, "scenes.ndjson")
    vlib.write_ndjson(path, scenes)
    r = vlib.tlc("SessionModel", "SessionModel.cfg", {"PID": c.pid, "GRAMMARS": h.table, "SCENES": path})
    c.add_tlc(r, 0, "SessionModel")
    if r.violated:
        raise vlib.ToolError(f"SessionModel does not hold of the specification\n{r.output[-3000:]}")
    seen, lines, calls = set(), [], []
    for m in re.finditer(r'^"H(\[[\d,]+\])"$', r.output, re.M):
        if m.group(1) in seen:
            continue
        seen.add(m.group(1))
        n, *ops = json.loads(m.group(1))
        ws = [words[n - 1][o - 1] for o in ops]
        lines.append("\t".join(["ops", str(scenes[n - 1]["lex"]), " ".join(ws), texts[n - 1].replace("\n", "\\n")]))
        calls.append([scenes[n - 1]["ops"][o - 1] for o in ops])
    obs = h.run(lines, stage)
    for o in obs:
        o["ops"] = calls[o["id"]]
        o.pop("plan", None)
    log(f"{len(obs)} transitions of {r.distinct} states on {len(scenes)} texts, replayed")
    c.judge("SessionCheck", "Cases.cfg", obs, env={"GRAMMARS": h.table}, stage=stage,
            describe=lambda o: " ".join(lines[o["id"]].split("\t")[1:]))


def model_stage(c, h, maxlen=3, alphabet=3, roots=40):
    """The model itself: the property holds of its own parse of every short token sequence."""
    k = 1 if thorough() else 0
    rng = random.Random(f"{SEED}-{c.pid}-model")
    ok = [g for g in range(1, len(h.corpus.roots) + 1) if h.corpus.ll1(g)]
    keep = ok if thorough() else sorted(rng.sample(ok, min(len(ok), roots)))
    table = h.corpus.table()
    table["roots"] = [table["roots"][g - 1] for g in keep]
    path = os.path.join(c.dir, "model.json")
    with open(path, "w") as f:
        json.dump(table, f, ensure_ascii=False)
    r = vlib.tlc("ParserModel", "ParserModel.cfg", {"PID": c.pid, "GRAMMARS": path, "MAXLEN": maxlen + k, "ALPHABET": alphabet + k})
    c.add_tlc(r, 0, "ParserModel")
    if r.violated:
        raise vlib.ToolError(f"ParserModel does not hold of the specification\n{r.output[-3000:]}")
