"""synctext on two files: lossless and optimal."""
from props.common import *
RULE = ("a case is a pair of texts and options (none, -i, -s); the output is parsed, both texts are rebuilt from it and compared with the "
        "reference reader's text, the cost is compared with an independent edit distance; non-trivial if both a match and a difference are shown")

def judge(c, xb, yb, opts=(), names=("a", "b")):
    a, b = c.w(names[0], xb), c.w(names[1], yb)
    sus = "-s" in opts
    args = [a, b]
    for o in opts: args.insert(c.rng.randint(0, len(args)), o)
    regions = model.parse_sync(c.run("synctext", *args).out, [a, b], sus)
    low = "-i" in opts
    x, y = text(xb, lower=low), text(yb, lower=low)
    spans = model.check_regions(regions, [cps(x), cps(y)])
    cost, d = model.region_cost(spans), model.lev(cps(x), cps(y))
    if cost != d: c.fail("the differences add up to %d, the edit distance is %d" % (cost, d), "not-optimal")
    for (k, v), (_, sp) in zip(regions, spans):
        parts = [[q for _, q in t[s:e]] for t, (s, e) in zip((x, y), sp)]
        if not sus: continue
        if k == "m": c.same(str([q for _, q in v]), str([p or q for p, q in zip(*parts)]), "markers of a match")
        else:
            for w, p in zip(v, parts): c.same(str([q for _, q in w]), str(p), "markers of a difference")
    c.count("matches", sum(k == "m" for k, _ in regions)); c.count("differences", sum(k == "d" for k, _ in regions)); c.count("cost", cost)
    c.note((xb, yb, opts) if len(xb) < 4000 else c.index, len({k for k, _ in regions}) == 2, sample=[list(opts), xb.decode(errors="replace"), yb.decode(errors="replace")] if len(xb) < 60 else None)

def small(c):
    g = gen.Gen(c.rng); r = c.rng
    x, y, a = g.pair(sync_safe=True)
    names = r.choice([("a", "b"), ("a", "b"), ("x.txt", "y"), ("n", "longer name.txt"), ("%d", "%s%n"), ("caf\u00e9", "z")])
    judge(c, g.plain(x), g.plain(y), r.choice([(), (), ("-i",)]), names)
def repeated(c):
    """The same motifs repeated over and over: long common runs that overlap each other."""
    g = gen.Gen(c.rng); r = c.rng
    a = g.alphabet(sync_safe=True) if r.random() < 0.3 else list(map(ord, "abcdefghij"))
    x, y = g.repeats(2, a)
    judge(c, g.plain(x), g.plain(y))
def marked(c):
    g = gen.Gen(c.rng); r = c.rng
    x, y, a = g.pair(sync_safe=True)
    judge(c, g.marked(x), g.marked(y), r.choice([("-s",), ("-s",), ("-s", "-i"), ()]))
def lines(c):
    """Differences with line ends."""
    g = gen.Gen(c.rng); r = c.rng
    a = [10, 10, 32, 97, 98, 99]
    x = g.seq(r.randint(5, 60), a)
    judge(c, g.plain(x), g.plain(g.mutate(x, a, rate=0.3)), r.choice([(), ("-s",)]), r.choice([("a", "b"), ("aaaa", "b"), ("a", "bbbbbbb")]))
def case(c):
    g = gen.Gen(c.rng); r = c.rng
    pool = gen.LATIN[:52] + gen.ACCENT + gen.GREEK + gen.CYR + [0x10400, 0x10428, 0x1E9E, 0x130, 0x2126, 0x212A, 0x1C4, 0x1C5]
    x = [r.choice(pool) for _ in range(r.randint(1, 40))]
    y = [u8.lower(k) if r.random() < 0.5 else k for k in x]
    judge(c, g.plain(x), g.plain(g.mutate(y, pool, rate=0.1)), r.choice([("-i",), ()]))
def unsafe(c):
    """Characters that the output itself uses: same output as for stand-ins, with the characters put back."""
    g = gen.Gen(c.rng); r = c.rng
    a = [k for k in g.alphabet() if k < 0xE000 and k not in gen.CTRL and not u8.is_mark(k)] + [97]
    sp = r.sample("{}<>=\u25cc", r.randint(1, 5))
    st = {ord(k): 0xF100 + i for i, k in enumerate(sp)}
    x = g.seq(g.size(), a + sorted(st)); y = g.mutate(x, a + sorted(st))
    t = lambda v: [st.get(k, k) for k in v]
    c.w("a", g.plain(t(x))); c.w("b", g.plain(t(y)))
    s = c.run("synctext", "a", "b").out
    regions = None
    try: regions = model.parse_sync(s, ["a", "b"])
    except Bad:
        if not any(k in a for k in gen.SYNC_UNSAFE): raise
    c.w("a", g.plain(x)); c.w("b", g.plain(y))
    o = c.run("synctext", "a", "b").out
    c.same(o, s.decode().translate({v: k for k, v in st.items()}).encode(), "special characters change the alignment")
    c.note((x, y), regions and len(regions) > 1)
def medium(c):
    g = gen.Gen(c.rng); r = c.rng
    a = g.alphabet(sync_safe=True)
    x = g.seq(r.randint(200, 2000), a)
    judge(c, g.plain(x), g.plain(g.mutate(x, a) if r.random() < 0.8 else g.seq(r.randint(1, 1500), a)))
def huge(c):
    g = gen.Gen(c.rng); r = c.rng
    n = r.choice([32767, 32769, 65535, 65537, 70000, 100000])
    x = long_text(g, n)
    y = few_edits(g, x, r.choice([3, 100]), gen.LATIN[:26] + [10, WILD])
    if c.index % 3 == 1: y = y[r.randint(100, 1000):]
    if c.index % 3 == 2: x = x[:500] + x[500 + r.randint(100, 1000):]
    judge(c, g.plain(x), g.plain(y))
def lopsided(c):
    """One text far longer than the other."""
    g = gen.Gen(c.rng); r = c.rng
    n = [1000, 5000, 20000, 42000, 66000, 80000][c.index % 6]
    x = long_text(g, n)
    y = [r.choice([97, 98, 126, 10]) for _ in range(r.randint(1, 4))] if c.index % 2 else [x[i] for i in sorted(r.sample(range(n), 30))]
    if c.index // 2 % 2 == 0:             # characters that occur once only, up to the very end
        x = list(x)
        for i, p in enumerate(r.sample(range(n - 400), 12) + r.sample(range(n - 400, n), 6)): x[p] = 0x4E00 + i
        y = [k for k in x if k >= 0x4E00]
    if (c.index + c.index // 6) % 2: x, y = y, x
    judge(c, g.plain(x), g.plain(y))
def manydiff(c):
    """Thousands of differences: insertions only, so that the optimum is known."""
    r = c.rng
    n = [1001, 10002, 1024, 100, 4097][c.index % 5]
    x = [97 + i % 7 for i in range(n)]
    y = [k for p in x for k in (p, r.choice([65, 66]))]
    if r.random() < 0.5: x, y = y, x
    a, b = c.w("a", bytes(x)), c.w("b", bytes(y))
    regions = model.parse_sync(c.run("synctext", a, b, variant="plain" if n > 5000 else "asan").out, [a, b], False)
    spans = model.check_regions(regions, [x, y])
    if model.region_cost(spans) != n: c.fail("the differences add up to %d, the edit distance is %d" % (model.region_cost(spans), n), "not-optimal")
    if sum(k == "d" for k, _ in regions) > n: c.fail("more differences than there are insertions", "differences")
    c.count("differences", n); c.note((n, c.index), True)
VARIANTS = ("asan", "plain")
FAMILIES = {"manydiff": (manydiff, 5, 25), "repeated": (repeated, 300, 5000), "small": (small, 1800, 30000), "marked": (marked, 800, 10000), "lines": (lines, 500, 6000), "case": (case, 300, 3000),
            "unsafe": (unsafe, 200, 2500), "medium": (medium, 120, 1500), "huge": (huge, 6, 45), "lopsided": (lopsided, 12, 36)}
BIG = ("manydiff", "huge", "lopsided")
MIN_NONTRIVIAL = 800
