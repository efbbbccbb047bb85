"""C29: first uses of grammars by several threads.  The schedules come from the specification
OnceSchedules; a driver forces them on the real code with gates in the grammars."""
import json, os, random, re
from concurrent.futures import ThreadPoolExecutor
import corpus, gramgen, grammars, vlib
from lexicons import LA, LB, LC
from parsing import ParseHarness
from vlib import SEED, thorough, log, run_driver, ToolError

# two roots each, which share productions, held while building and while parsing
PAIRS = [
    (LA, "!S R = gate(Sh) ; Semi\n!S Q = Lp ; gate(Sh) ; Rp\nS Sh = Id ; opt(Num)"),
    (LA, "!S R = gate(star(Id)) ; Semi\n!S Q = gate(star(Id)) ; Id"),
    (LA, "!E R = gate(A) | B\n!E Q = B | gate(A)\nS A = Id ; Eq ; Num\nS B = KwLet ; star(A)"),
    (LA, "!S R = Lp ; opt(gate(box(Q))) ; Rp\n!S Q = KwLet ; gate(opt(R)) ; Semi"),
    (LA, "!S R = gate(opt(Num)) ; box(R)\n!S Q = Id ; gate(opt(Num)) ; Semi"),
    (LB, "!S R = gate(split(Word,To)) ; Bang\n!S Q = split(Word,To) ; gate(opt(Digit))"),
    (LC, "!S R = gate(star((Ta,Tb))) ; Te\n!S Q = gate(punct(Ta,Tb)) ; Td"),
    (LA, "!S R = gate(loop((Id,Semi)))\n!S Q = KwLet ; gate(rec((Id,Eq),Semi))"),
    (LA, "!E R = gate(Id) | KwLet\n!E Q = KwLet | gate(KwIf)"),
    (LA, "!S R = gate(X) ; Semi\n!S Q = gate(Y) ; Semi\nE X = Id | Y\nE Y = Num | (Lp,box(X),Rp)"),
]


def schedules(c, cfg):
    r = vlib.tlc("OnceSchedules", cfg, {"PID": c.pid})
    c.add_tlc(r, 0, cfg)
    if r.violated:
        raise ToolError("OnceSchedules violates its invariant")
    out = []
    for m in re.finditer(r'<<\s*"SCHEDULE",\s*(<<.*?>>\s*>>)\s*>>', r.output, re.S):
        out.append([(k, int(t), int(g)) for k, t, g in re.findall(r'<<"(\w+)",\s*(\d+),\s*(\d+)>>', m.group(1))])
    return sorted(set(map(tuple, out)))


def spec_models(c):
    for cfg, bad in (("OnceInitOnce", False), ("OnceInitRacing", False), ("OnceInitEager", True))[0 if thorough() else 1:]:
        r = vlib.tlc("OnceInit", cfg + ".cfg", {"PID": c.pid})
        if r.violated != bad:
            raise ToolError(f"{cfg}: expected violated={bad}")
        if not bad:
            c.add_tlc(r, 0, cfg)


def texts(cp, g, rng):
    lex = cp.lexicon(g)
    s = cp.sentence(g, rng, rng.randint(1, 5)) if cp.depth()[cp.roots[g - 1]["node"]] is not None else []
    if rng.random() < 0.4:
        s = corpus.mutate(s, rng, cp.terminals(g), list(lex.terminals))
    t = corpus.render(s, lex, rng, False).replace("\n", " ").replace("\t", " ")
    return t if "|" not in t else ""


def once_stage(c):
    rng = random.Random(f"{SEED}-{c.pid}")
    units = [(lex, corpus.parse_types(t)) for lex, t in PAIRS]
    plain = []
    for tags, lex, text in grammars.G:
        if rng.random() < (0.6 if thorough() else 0.3):
            types = corpus.parse_types(text)
            for t in types:
                if t.root:
                    e, s = t.parts[0]
                    t.parts[0] = (("gate", [e]), s)
            plain.append((lex, types))
    h = ParseHarness(c, units + plain, once=True)
    cp = h.corpus
    pool = {}

    def call(g):
        if g not in pool:
            pool[g] = [texts(cp, g, rng) for _ in range(3)] + [""]
        return f"{cp.roots[g - 1]['lex']},{g},{rng.randint(0, 1)},{rng.choice(pool[g])}"
    # every process uses each pair of roots once, each under a schedule of its own
    todo = []
    for cfg, k in (("OnceSchedules3.cfg", 3), ("OnceSchedules2.cfg", 2)):
        ss = schedules(c, cfg)
        c.cov[cfg] = len(ss)
        todo += [(k, s) for s in ss]
    rng.shuffle(todo)
    todo = todo * 8 if thorough() else todo[:1600]
    jobs, i, pairs = [], 0, len(PAIRS)
    while i < len(todo):
        lines = []
        for p in rng.sample(range(pairs), pairs):
            if i == len(todo):
                break
            k, s = todo[i]
            i += 1
            two = [2 * p + 1, 2 * p + 2]
            calls = [[] for _ in range(k)]
            for kind, t, g in s:
                if kind == "call":
                    calls[t - 1].append(call(two[g - 1]))
            steps = " ".join({"call": "c", "pass": "b", "parse": "p"}[kind] + str(t) for kind, t, _ in s)
            lines.append("\t".join([steps] + ["|".join(x) for x in calls]))
        jobs.append(("schedules", lines))
    # all threads at once on all roots, in the same or in different orders
    roots = range(1, len(cp.roots) + 1)
    for n in range(400 if thorough() else 60):
        threads = rng.choice([2, 3, 8, 8, 12])
        order = rng.sample(roots, len(roots))
        same = n % 3 != 2
        calls = []
        for t in range(threads):
            o = order if same else rng.sample(order, len(order))
            calls.append("|".join(call(g) for g in o))
        jobs.append(("together", ["\t".join([f"free{0 if n % 2 else rng.randint(1, 9999)}"] + calls)]))

    def work(j):
        kind, lines = jobs[j]
        path = os.path.join(c.dir, f"job{j}.txt")
        with open(path, "w") as f:
            f.write("\n".join(lines) + "\n")
        obs = run_driver(lambda s: [h.exe, path, str(s)], lambda i, how: {"id": i, "end": how, "calls": []}, stall=60.0)
        os.unlink(path)
        for o in obs:
            o["line"] = lines[o["id"]]
            o["asked"] = sum(len(x.split("|")) for x in lines[o["id"]].split("\t")[1:])
        return obs
    with ThreadPoolExecutor(6) as ex:
        got = list(ex.map(work, range(len(jobs))))
    runs = [o for obs in got for o in obs]
    views, parses, seen = [], [], set()
    for i, o in enumerate(runs):
        o["id"] = i
        views.append({"id": i, "end": o["end"], "asked": o["asked"],
                      "calls": [{k: x[k] for k in ("t", "g", "v", "say", "tab")} for x in o["calls"]]})
        for x in o["calls"]:
            x = {k: x[k] for k in x if k not in ("t", "v", "say", "tab")}
            key = json.dumps(x, sort_keys=True)
            if key not in seen:
                seen.add(key)
                parses.append({"id": len(parses), **x})
    n = sum(len(o["calls"]) for o in runs)
    log(f"{len(todo)} schedules forced, {len(jobs)} processes, {n} calls, {len(parses)} different observations")
    c.cov.update(schedules=len(todo), processes=len(jobs), calls=n, roots=len(cp.roots))
    c.samples += [jobs[0][1][0], h.show(1)]
    c.judge("OnceCheck", "Cases.cfg", views, env={"GRAMMARS": h.table}, stage="views", describe=lambda o: runs[o["id"]]["line"][:300])
    c.judge("ParseCheck", "Cases.cfg", parses, env={"GRAMMARS": h.table}, stage="parses",
            describe=lambda o: f"{h.show(o['plan'][0])} on {''.join(o['in'])!r}")
    spec_models(c)
