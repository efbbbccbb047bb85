"""Grammars for the analysis checks: exhaustive small ones and seeded random ones.
A grammar is (root, prods), prods numbered from 1:
('t',ty,lit) ('e',) ('s',[..]) ('u',[..]); lit 0/1 fixed, 2 any."""
import itertools, random

# terminal pairs: distinct types; fixed and any text of one type; two fixed texts
PAIRS = [(("t", 0, 0), ("t", 1, 2)), (("t", 0, 0), ("t", 0, 2)), (("t", 0, 0), ("t", 0, 1))]


def bodies(symbols, maxlen):
    """sequences of length 1..maxlen, alternatives of length 1..maxlen"""
    for n in range(1, maxlen + 1):
        for c in itertools.product(symbols, repeat=n):
            yield ("s", list(c))
            if n > 1:
                yield ("u", list(c))


def exhaustive2(maxlen=2, pair=0):
    """All grammars with two non-terminals over two terminals and empty:
    nodes 1=N1 (root) 2=N2 3=t1 4=t2 5=empty."""
    t1, t2 = PAIRS[pair]
    syms = [1, 2, 3, 4, 5]
    bs = list(bodies(syms, maxlen))
    for b1 in bs:
        uses2 = 2 in b1[1]
        for b2 in (bs if uses2 else bs[:1]):
            yield (1, [b1, b2, t1, t2, ("e",)])


def random_grammar(rng, nts, nterm, maxlen, lean=None):
    """nodes: 1..nts non-terminals, then terminals, then empty."""
    lean = rng.random() if lean is None else lean
    terms = []
    while len(terms) < nterm:
        t = ("t", rng.randrange(3), rng.choice([0, 1, 2]))
        if t not in terms:
            terms.append(t)
    eps = nts + nterm + 1
    prods = []
    for x in range(1, nts + 1):
        n = rng.randint(1, maxlen)
        pool_t = list(range(nts + 1, nts + nterm + 1))
        ch = []
        for i in range(n):
            r = rng.random()
            if r < 0.12 + 0.2 * lean:
                ch.append(eps)
            elif r < 0.60:
                # prefer later non-terminals: fewer left recursions, deeper chains
                if rng.random() < 0.75 and x < nts:
                    ch.append(rng.randint(x + 1, nts))
                else:
                    ch.append(rng.randint(1, nts))
            else:
                ch.append(rng.choice(pool_t))
        prods.append((rng.choice("su") if n > 1 else "s", ch))
    return (1, prods + terms + [("e",)])


def optionish_grammar(rng, nopt, nseq, recursive=True):
    """Shapes the provided combinators make: sequences over terminals, options,
    repetitions (X -> T opt(X)), with chains of possibly-empty neighbours.  Mostly accepted."""
    prods, free = [], []
    terms = [("t", ty, lit) for ty in range(3) for lit in range(3)]
    rng.shuffle(terms)
    # keep at most one 'any' per type together with fixed ones only sometimes
    terms = terms[:rng.randint(4, 7)]
    nodes = []
    def add(p):
        nodes.append(p)
        return len(nodes)
    root = add(None)
    eps = add(("e",))
    tid = [add(t) for t in terms]
    items = list(tid)
    for _ in range(nopt):
        base = rng.choice(items)
        r = rng.random()
        if r < 0.5:
            items.append(add(("u", [base, eps] if rng.random() < 0.8 else [eps, base])))
        elif r < 0.7 and recursive:
            x = add(None)
            o = add(("u", [x, eps]))
            nodes[x - 1] = ("s", [base, o])
            items.append(x if rng.random() < 0.4 else o)
        elif r < 0.85:
            a, b = rng.choice(items), rng.choice(items)
            items.append(add(("u", [a, b])))
        else:
            items.append(add(("s", [rng.choice(items) for _ in range(rng.randint(2, 3))])))
    for _ in range(nseq):
        items.append(add(("s", [rng.choice(items) for _ in range(rng.randint(2, 4))])))
    nodes[root - 1] = ("s", [rng.choice(items[-6:]) for _ in range(rng.randint(1, 4))])
    if recursive and rng.random() < 0.3:
        nodes[root - 1][1].append(rng.choice([i for i in range(1, len(nodes) + 1)]))
    return (root, nodes)


def cyclic_grammar(rng, n):
    """A cycle of length n, broken or not by terminals in front of it."""
    nodes = []
    def add(p):
        nodes.append(p)
        return len(nodes)
    xs = [add(None) for _ in range(n)]
    eps = add(("e",))
    a, b, c = add(("t", 0, 0)), add(("t", 1, 2)), add(("t", 2, 2))
    oa = add(("u", [a, eps]))
    for i, x in enumerate(xs):
        nxt = xs[(i + 1) % n]
        r = rng.random()
        if r < 0.3:
            nodes[x - 1] = ("s", [nxt] + [rng.choice([a, b, c])] * rng.randint(0, 1))
        elif r < 0.55:
            nodes[x - 1] = ("s", [rng.choice([oa, eps, oa]), nxt, rng.choice([a, b, c])])
        elif r < 0.75:
            nodes[x - 1] = ("u", rng.sample([nxt, b, c], 2 + rng.randint(0, 1)))
        elif r < 0.9:
            nodes[x - 1] = ("s", [rng.choice([a, b, c]), nxt])
        else:
            nodes[x - 1] = ("u", [nxt, eps])
    if rng.random() < 0.5:
        root = add(("s", [rng.choice([a, b, c, oa]), xs[0]]))
    else:
        root = xs[0]
    return (root, nodes)


def deep_grammar(rng, depth, back=False):
    """A chain of `depth` constructs over one leaf, numbered in any order, some of them with a possibly-empty or
    fixed neighbour; what is in front of and behind the chain shows in FIRST and FOLLOW only at its end."""
    n = depth + 2
    xs = rng.sample(range(1, n + 1), n) if rng.random() < 0.7 else (list(range(1, n + 1)) if not back else list(range(n, 0, -1)))
    a, b, c, e, oc = n + 1, n + 2, n + 3, n + 4, n + 5
    prods = [None] * n
    for i in range(n - 1):
        r = rng.random()
        if r < 0.55:
            p = ("s", [xs[i + 1]])
        elif r < 0.7:
            p = ("u", [xs[i + 1], e] if rng.random() < 0.5 and i == n - 2 else [xs[i + 1]])
        elif r < 0.85:
            p = ("s", [xs[i + 1], oc] if i == 0 else [e, xs[i + 1], e])
        else:
            p = ("s", [oc, xs[i + 1]] if i == n - 3 else [e, xs[i + 1]])
        prods[xs[i] - 1] = p
    prods[xs[-1] - 1] = ("s", [a]) if rng.random() < 0.6 else ("u", [a, e]) if rng.random() < 0.5 else ("s", [a, b])
    r = rng.random()
    root = xs[0]
    prods += [("t", 0, 0), ("t", 1, 2), ("t", 2, 2), ("e",), ("u", [c, e])] if True else []
    if r < 0.8:
        prods.append(("s", [xs[0], rng.choice([b, oc, a])]))
        root = len(prods)
    if rng.random() < 0.25:
        # a second use of something deep inside
        prods.append(("s", [root, xs[rng.randrange(n)]]))
        root = len(prods)
    return (root, prods)


def wide_grammar(rng, width):
    """One construct of many parts, or a choice of many alternatives, with other constructs at its end."""
    leaves = [("t", ty, lit) for ty in range(3) for lit in range(3)]
    rng.shuffle(leaves)
    leaves = leaves[:rng.randint(3, 9)]
    nodes = [None]
    def add(p):
        nodes.append(p)
        return len(nodes)
    tid = [add(t) for t in leaves]
    eps = add(("e",))
    opts = [add(("u", rng.sample([t, eps], 2))) for t in tid]
    ch = [rng.choice(tid + opts + ([eps] if rng.random() < 0.3 else [])) for _ in range(width - 1)]
    tail = add(("u", rng.sample(tid, min(3, len(tid)))))
    inner = add(("s", [tail, rng.choice(opts)])) if rng.random() < 0.5 else tail
    ch.insert(rng.choice([len(ch), rng.randint(0, len(ch))]), inner)
    if rng.random() < 0.3:
        alts = [add(("s", [t] + [rng.choice(tid + opts) for _ in range(rng.randint(0, 2))])) for t in tid]
        nodes[0] = ("s", [add(("u", alts + ([opts[0]] if rng.random() < 0.3 else []))), rng.choice(tid + opts)])
    else:
        nodes[0] = ("s", ch)
    return (1, nodes)


def line(g):
    root, prods = g
    ps = []
    for p in prods:
        if p[0] == "t":
            ps.append(f"t,{p[1]},{p[2]}")
        elif p[0] == "e":
            ps.append("e")
        else:
            ps.append(p[0] + "," + ",".join(map(str, p[1])))
    return f"{root}|" + ";".join(ps)


def spec(g):
    out = []
    for p in g[1]:
        if p[0] == "t":
            out.append({"k": "term", "ty": p[1], "lit": p[2], "ch": []})
        elif p[0] == "e":
            out.append({"k": "eps", "ty": 0, "lit": 0, "ch": []})
        else:
            out.append({"k": "seq" if p[0] == "s" else "union", "ty": 0, "lit": 0, "ch": list(p[1])})
    return out


def corpus(seed, thorough):
    rng = random.Random(seed)
    gs = []
    if thorough:
        for pair in range(3):
            gs += list(exhaustive2(2, pair))
        ex3 = list(exhaustive2(3, 0))
        gs += ex3
        nrand = 30000
    else:
        gs += list(exhaustive2(2, 0))
        e1 = list(exhaustive2(2, 1))
        gs += rng.sample(e1, 800)
        e2 = list(exhaustive2(2, 2))
        gs += rng.sample(e2, 400)
        nrand = 2500
    for _ in range(nrand):
        gs.append(random_grammar(rng, rng.randint(2, 4), rng.randint(2, 4), 3))
    for _ in range(nrand * 2):
        gs.append(optionish_grammar(rng, rng.randint(2, 8), rng.randint(0, 3)))
    for _ in range(nrand // 3):
        gs.append(cyclic_grammar(rng, rng.randint(1, 5)))
    for _ in range(nrand // 5):
        gs.append(deep_grammar(rng, rng.choice([5, 12, 18, 25, 40]), rng.random() < 0.5))
        gs.append(wide_grammar(rng, rng.choice([5, 9, 12, 17, 20])))
    return gs
