"""The checks, one function per property.  Each returns the known findings it met."""
import json, os, random
import vlib
from vlib import VERIF, SEED, thorough, log, run_driver, cargo_build, ToolError
import gramgen
from lexing import lex_stage
from once import once_stage
from defs import defs_stage
from syndefs import syndefs_stage
from tables import table_stage, sets_stage, terms_stage
from parsing import parse_stage, roots_stage, model_stage, session_stage, transitions_stage, trivia_stage

H = lambda n: os.path.join(VERIF, "harness", n)


# ---------------------------------------------------------------- grammar analysis
def grammar_stage(c, nperm):
    gs = gramgen.corpus(SEED * 1000 + sum(map(ord, c.pid)), thorough())
    exe = cargo_build(H("gram"))
    path = os.path.join(c.dir, "grammars.txt")
    with open(path, "w") as f:
        f.write("\n".join(gramgen.line(g) for g in gs) + "\n")
    dead = lambda i, how: {"id": i, "runs": [{"v": how, "f": [], "terms": [], "first": [], "follow": [], "jump": []}]}
    obs = run_driver(lambda start: [exe, path, str(start), str(nperm), str(SEED)], dead)
    verdicts = {}
    for o in obs:
        root, _ = gs[o["id"]]
        o["root"], o["prods"] = root, gramgen.spec(gs[o["id"]])
        for r in o["runs"]:
            verdicts[r["v"]] = verdicts.get(r["v"], 0) + 1
    log(f"{len(obs)} grammars under {nperm} identifier assignments: {verdicts}")
    c.cov["grammars"] = len(obs)
    c.cov["verdicts"] = verdicts
    c.cov["identifier_assignments"] = nperm
    c.samples += [gramgen.line(gs[o["id"]]) for o in obs[-3:]]
    c.judge("GrammarCheck", "Cases.cfg", obs, stage="grammars", describe=lambda o: gramgen.line(gs[o["id"]]))


def grammar_model_stage(c):
    """The equations of the specification against derivations, for every small grammar."""
    env = {"NTS": 3 if thorough() else 2, "WIDTH": 2, "DEPTH": 5 if thorough() else 4}
    r = vlib.tlc("GrammarModel", "GrammarModel.cfg", env)
    c.add_tlc(r, 0, "GrammarModel")
    if r.violated:
        raise ToolError(f"GrammarModel does not hold of the specification\n{r.output[-3000:]}")


def c01(c):
    grammar_stage(c, 3)
    grammar_model_stage(c)
    h, obs = parse_stage(c, nrand=20, cap=40, ntext=10, rejected=60, hand=lambda tags, cp: True)
    got = h.verdicts()
    for o in got:
        o["g"] = o["id"] + 1
    c.judge("VerdictCheck", "Cases.cfg", got, env={"GRAMMARS": h.table}, stage="verdicts", describe=lambda o: h.show(o["id"] + 1))


def grammar(nperm):
    def f(c):
        grammar_stage(c, nperm)
        grammar_model_stage(c)
        roots_stage(c)
    return f


def c06(c):
    grammar_stage(c, 3)
    roots_stage(c)
    parse_stage(c, nrand=60, cap=300, ntext=60)


def c07(c):
    grammar_stage(c, 40 if thorough() else 12)
    roots_stage(c)


def parse(**kw):
    model = kw.pop("model", False)

    def f(c):
        h, _ = parse_stage(c, **kw)
        if model:
            model_stage(c, h)
    return f


def c22(c):
    h, _ = parse_stage(c, nrand=20, cap=60, ntext=40)
    session_stage(c, h, 6000, 3)
    transitions_stage(c, h, 20)


def c23(c):
    h, _ = parse_stage(c, nrand=40, cap=1, ntext=20, rejected=20, plans=12000, hand=lambda tags, cp: True)
    session_stage(c, h, 2000, 0)
    transitions_stage(c, h, 10)


CHECKS = {"C01": c01, "C02": grammar(3), "C03": grammar(3), "C04": grammar(3), "C05": grammar(3), "C06": c06, "C07": c07,
          "C08": parse(nrand=100, cap=150, ntext=120, model=True), "C09": parse(nrand=100, cap=150, ntext=120, model=True),
          "C10": parse(nrand=100, cap=150, ntext=120, model=True), "C11": parse(nrand=100, cap=60, ntext=80, wild=60, model=True),
          "C12": parse(), "C13": parse(), "C14": parse(), "C15": parse(), "C16": parse(), "C17": parse(), "C18": parse(),
          "C19": parse(nrand=100, cap=150, ntext=120, model=True), "C20": parse(nrand=80, cap=150, ntext=120, model=True), "C21": parse(),
          "C22": c22, "C24": lex_stage, "C23": c23, "C25": table_stage, "C26": sets_stage, "C27": terms_stage, "C28": defs_stage, "C29": once_stage, "C30": parse(nrand=60, cap=100, ntext=80),
          "C31": parse(nrand=100, cap=150, ntext=120, model=True), "C32": trivia_stage, "C33": syndefs_stage}

ABOUT_C33 = ("TLA+ specification of the rules for syntax definitions and of what the derives provide; TLC judges the compiler's verdict, the "
             "generated tests and the recorded values of every generated definition",
             "Bounded: all flag sequences and pairs of part attributes, all pairs of kinds of parts, seeded random definitions with none to two "
             "rules broken. Trusts TLC and the attribution of compiler errors to definitions by position. Names that clash with those in the "
             "generated code, empty semantic lists and list attributes the macro does not know are outside.")
GRAM = "TLA+ specification of LL(1) analysis; TLC judges the analysis the real code computed for every enumerated grammar and compiled root"
GRAM_NOTE = ("Bounded: all grammars of the small enumerated families plus seeded random ones, each under several assignments "
             "of internal identifiers, and hand-written and seeded random roots compiled with the derive macros. Trusts TLC and the "
             "harnesses that drive the public analysis API.")
ABOUT = {i: (GRAM, GRAM_NOTE) for i in ("C01", "C02", "C03", "C04", "C05", "C06", "C07")}
PARSE = ("TLA+ specification of predictive parsing with recovery and of derivations; TLC replays and judges every recorded run of the "
         "real parser on generated grammars and inputs")
PARSE_NOTE = ("Bounded: hand-written and seeded random grammars over three lexicons; all short token sequences and mutated sentences. "
              "Trusts TLC, the generated harness (public API only) and the regex front end that gives the lexicons meaning.")
for i in ("C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C16", "C17", "C18", "C19", "C20", "C21", "C22", "C23", "C30", "C31"):
    ABOUT[i] = (PARSE, PARSE_NOTE)

ABOUT["C32"] = ("TLA+ specification of lexing and of parser observations; TLC compares pairs of recorded runs of the real parser on "
                "texts with the same tokens and different text between them", PARSE_NOTE)

ABOUT["C24"] = ("TLA+ specification of longest-match lexing; TLC judges every text read by the real lexer of generated lexicons",
                "Bounded: fixed and seeded random lexicons, all short texts over their characters and random longer ones. Trusts TLC and "
                "the regex front end that gives patterns their meaning. Ties the lexer generator leaves open are not judged.")

ABOUT["C25"] = ("TLA+ specification of the token table; TLC explores it and judges every query and every history of operations on the real one",
                "Bounded: all layouts of up to four tokens over a short text with all spans and positions, longer random ones, random "
                "histories of growing and marking. Trusts TLC and the driver, which uses the public API only.")
ABOUT["C26"] = ("TLA+ specification of token-type sets and tables; TLC judges every recorded history of operations on the real ones",
                "Bounded: lexicon sizes around every change of representation (all of 1 to 128 in the thorough tier); every type alone, "
                "pairs, all short histories for small sizes, random longer ones. Trusts TLC and the driver.")
ABOUT["C27"] = ("TLA+ specification of terminal sets; TLC explores it and judges every recorded history of operations on the real ones",
                "Bounded: pairs of sets over two types and three texts, all short histories, random longer ones. Trusts TLC and the driver.")

ABOUT["C28"] = ("TLA+ specification of the rules for lexicon definitions; TLC judges the compiler's verdict on every generated definition",
                "Bounded: all definitions of one type with up to three terminals and seven patterns, the sizes around every limit, and "
                "random definitions with none to two rules broken at random places. Trusts TLC, the attribution of compiler errors to "
                "definitions by position, and the regex front end; whether a pattern is malformed is taken from a fixed list.")

ABOUT["C33"] = ABOUT_C33
ABOUT["C29"] = ("TLA+ specification of one-time initialisation explored by TLC over all interleavings; its schedules are forced on the real code "
                "with gates in the grammars, and TLC judges what every thread got",
                "Bounded: all schedules of three threads with one call and two threads with two calls over two roots, at the points where a "
                "grammar can be held (building, parsing); other interleavings by running up to twelve threads freely. Trusts TLC and the driver.")
