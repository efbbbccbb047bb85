"""The stages about lexicons: the lexer (C24) and the validation of definitions (C28)."""
import json, os, random, re, shutil, subprocess
import lexgen, vlib
from lexicons import LEX, Lexicon
from vlib import SEED, VERIF, TARGET, thorough, log, run_driver, cargo_build, cargo_env, ToolError

KNOWN = Lexicon("KF", [("N", ["x[0-9]+y", "[0-9]+"], [("N", None)])], [])
KNOWN_TEXT = "x12b"


def lex_crate(c, lexes):
    """Builds the crate, dropping lexicons the lexer generator refuses (they tie)."""
    d = os.path.join(c.dir, "lex")
    os.makedirs(os.path.join(d, "src"), exist_ok=True)
    src = os.path.join(VERIF, "harness", "lex")
    shutil.copy(os.path.join(src, "Cargo.toml"), d)
    shutil.copy(os.path.join(src, "src", "rt.rs"), os.path.join(d, "src"))
    text = open(os.path.join(VERIF, "harness", "gram", "Cargo.lock")).read()
    open(os.path.join(d, "Cargo.lock"), "w").write(text.replace('name = "gram-harness"', 'name = "lex-harness"'))
    lexes = list(lexes)
    for attempt in range(6):
        code, first = lexgen.rust(lexes)
        open(os.path.join(d, "src", "main.rs"), "w").write(code)
        r = subprocess.run(["cargo", "check", "--offline", "-q", "--message-format=json"], cwd=d, env=cargo_env(),
                           capture_output=True, text=True)
        if r.returncode == 0:
            return lexes, cargo_build(d)
        bad = set()
        for line in r.stdout.splitlines():
            m = json.loads(line)
            if m.get("reason") == "compiler-message" and m["message"]["level"] == "error":
                for s in m["message"]["spans"]:
                    if s["file_name"].endswith("main.rs"):
                        bad |= {max([k for k in first if k <= s["line_start"]], default=0)}
        bad = {first[b] for b in bad if b}
        if any(not re.fullmatch(r"R\d+", lexes[i - 1].name) for i in bad):
            print(r.stderr[-3000:])
            raise ToolError("a lexicon written by hand is refused")
        if not bad:
            print(r.stderr[-3000:])
            raise ToolError("the lexer harness does not build")
        log(f"{len(bad)} lexicons refused by the lexer generator")
        lexes = [l for i, l in enumerate(lexes, 1) if i not in bad]
    raise ToolError("the lexer harness does not build")


def lex_stage(c):
    rng = random.Random(f"{SEED}-{c.pid}-lex")
    k = 5 if thorough() else 1
    n = 40 * (2 if thorough() else 1)
    # (LD has patterns that can fail partway, which is the listed finding)
    lexes, exe = lex_crate(c, [l for l in LEX if l.name != "LD"] + [KNOWN] + [lexgen.random_lexicon(rng, f"R{i}") for i in range(n)])
    table = os.path.join(c.dir, "lexicons.json")
    with open(table, "w") as f:
        json.dump({"lexicons": [l.spec() for l in lexes]}, f, ensure_ascii=False)
    lines, kf = [], {}
    for i, l in enumerate(lexes, 1):
        if l is KNOWN:
            lines.append(f"text\t{i}\t{KNOWN_TEXT}")
            lines += [f"text\t{i}\t{t}" for t in ("", "1", "x1y", "12x3y4")]
            continue
        cs = lexgen.alphabet(l)
        pool = rng.sample(cs, min(len(cs), 6)) + [rng.choice(lexgen.CHARS), " "]
        pool = list(dict.fromkeys(pool))[:7]
        lines.append("\t".join(["enum", str(i), "3" if not thorough() else "4"] + pool).replace("\n", "\\n"))
        lines += [f"text\t{i}\t" + t.replace("\n", "\\n").replace("\t", " ") for t in lexgen.texts(l, rng, 300 * k, 14)]
    # the machine that lexes character by character agrees with the declaration
    alpha = os.path.join(c.dir, "alphabets.json")
    with open(alpha, "w") as f:
        json.dump({"alphabets": [rng.sample(cs, min(len(cs), 5)) for cs in map(lexgen.alphabet, lexes)]}, f, ensure_ascii=False)
    r = vlib.tlc("LexModel", "LexModel.cfg", {"LEXICONS": table, "ALPHABETS": alpha, "MAXLEN": 6 if thorough() else 4})
    c.add_tlc(r, 0, "LexModel")
    if r.violated:
        raise ToolError(f"LexModel does not hold of the specification\n{r.output[-3000:]}")
    path = os.path.join(c.dir, "jobs.txt")
    open(path, "w").write("\n".join(lines) + "\n")
    obs = run_driver(lambda s: [exe, path, str(s)], lambda i, how: {"id": i, "end": how})
    log(f"{len(obs)} texts read with {len(lexes)} lexicons")
    c.cov["lexicons"] = len(lexes)
    c.samples += [lexes[-1].rust()]
    # the listed finding is judged apart from everything else
    listed = vlib.known_findings(c.pid)
    ki = lexes.index(KNOWN) + 1 if KNOWN in lexes else 0
    mine = [o for o in obs if o.get("lex") == ki and "".join(o.get("in", [])) == KNOWN_TEXT]
    env = {"LEXICONS": table}
    c.judge("LexCheck", "Cases.cfg", [o for o in obs if o["id"] not in {m["id"] for m in mine}] if "failed-prefix" in listed else obs, env=env, stage="lexer",
            describe=lambda o: (lexes[o["lex"] - 1].name + " " + json.dumps("".join(o["in"]), ensure_ascii=False)) if "in" in o else "")
    if "failed-prefix" in listed and mine:
        p = os.path.join(c.dir, "known.ndjson")
        vlib.write_ndjson(p, mine)
        r = vlib.tlc("LexCheck", "Cases.cfg", {"OBS": p, "PID": c.pid, **env})
        # only the listed deviation is accepted for it
        as_listed = mine[0]["end"] == "ok" and [x["inv"] for x in mine[0]["reads"]][:1] == [[0, 4]]
        if r.violated and as_listed:
            return [f"key=failed-prefix {listed['failed-prefix']}"]
        if r.violated:
            c.violation(f"lexer: x12b {mine[0]}", {"observation": mine[0]})
    return []
