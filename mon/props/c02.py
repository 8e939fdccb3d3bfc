"""Every figure of accuracy's report follows from synctext's alignment of the same files."""
from props.common import *
RULE = ("a case is a pair of texts, run through synctext and accuracy; a reference reporter turns synctext's displayed alignment into the "
        "whole accuracy report, compared byte for byte; non-trivial if there are at least two differences or a marked character")

# characters that make synctext's own output ambiguous are replaced for synctext by private-use stand-ins
STAND = {ord(c): 0xF100 + i for i, c in enumerate("{}<>=\u25cc")}
BACK = {v: k for k, v in STAND.items()}

def judge(c, cb, gb, stand=False, out=False):
    a, b = c.w("a", cb), c.w("b", gb)
    r = c.run("accuracy", a, b, *(["rep"] if out else []))
    got = c.r("rep") if out else r.out
    if stand:
        t = lambda d: d.decode().translate(STAND).encode()
        c.w("a2", t(cb)); c.w("b2", t(gb))
        regions = model.parse_sync(c.run("synctext", "a2", "b2").out, ["a2", "b2"])
        tr = lambda v: [(BACK.get(k, k), q) for k, q in v]
        regions = [(k, tr(v) if k == "m" else [tr(x) for x in v]) for k, v in regions]
    else: regions = model.parse_sync(c.run("synctext", a, b).out, [a, b])
    x, y = text(cb), text(gb)
    model.check_regions(regions, [cps(x), cps(y)])
    want = model.acc_from_regions(regions, [q for _, q in y])
    c.same(got, want.text(), "report differs from the displayed alignment")
    nd = sum(1 for k, _ in regions if k == "d")
    c.count("differences", nd); c.count("confusions", len(want.conf)); c.count("marks", want.suspects + want.rejects)
    c.count("false marks", want.false); c.count("characters listed", len(want.chars))
    c.count("truncated confusions", sum("..." in k for k in want.conf))
    c.note((cb, gb) if len(cb) < 4000 else c.index, nd > 1 or want.suspects + want.rejects, sample=[cb[:200].decode(errors="replace"), gb[:200].decode(errors="replace")] if len(cb) < 80 else None)

def small(c):
    g = gen.Gen(c.rng)
    x, y, a = g.pair(sync_safe=True)
    judge(c, g.plain(x), g.marked(y), out=c.rng.random() < 0.1)
def repeated(c):
    """The same motifs repeated over and over: long common runs that overlap each other."""
    g = gen.Gen(c.rng); r = c.rng
    a = g.alphabet(sync_safe=True) if r.random() < 0.3 else list(map(ord, "abcdefghij"))
    x, y = g.repeats(2, a)
    judge(c, g.plain(x), g.marked(y))
def unsafe(c):
    g = gen.Gen(c.rng); r = c.rng
    a = [x for x in g.alphabet() if x not in BACK] + r.sample(sorted(STAND), r.randint(1, 6)) + r.choice([[], [0x301], [10]])
    x = g.seq(g.size(), a)
    judge(c, g.plain(x), g.marked(g.mutate(x, a)), stand=True)
def marks(c):
    """Correct text with wildcards and (meaningless) marks, generated text full of marks."""
    g = gen.Gen(c.rng); r = c.rng
    a = g.alphabet(sync_safe=True, wild=1.0)
    x = g.seq(g.size(), a)
    y = g.mutate([r.choice(a) if k == WILD and r.random() < 0.6 else k for k in x], a)
    judge(c, g.marked(x), g.marked(y, r.choice([0.2, 0.5, 1.0])))
def long_conf(c):
    """Differences around the display limit of 24 bytes."""
    g = gen.Gen(c.rng); r = c.rng
    pool = r.choice([gen.LATIN, gen.ACCENT, gen.CJK, gen.MARKS + gen.LATIN[:5], [0, 1, 0xAD, 0x10FFFF, 97], gen.ASTRAL])
    pool = [k for k in pool if k not in gen.SYNC_UNSAFE]
    x, y = [], []
    for _ in range(r.randint(1, 8)):
        m = [0x3B1 + r.randint(0, 9) for _ in range(r.randint(60, 80))]
        x += m + [r.choice(pool) for _ in range(r.choice([0, 1, 5, 6, 7, 8, 9, 11, 12, 13, 22, 23, 24, 25, 26, 40]))]
        y += m + [0x410 + r.randint(0, 30) for _ in range(r.choice([0, 1, 5, 11, 12, 13, 14, 23, 24, 25, 30]))]
    if r.random() < 0.5: x, y = y, x
    judge(c, g.plain(x), g.marked(y, r.choice([0, 0.1])))
def many(c):
    """Many distinct confusions and characters."""
    g = gen.Gen(c.rng); r = c.rng
    pool = [k for k in gen.LATIN + gen.ACCENT + gen.CYR + gen.GREEK + gen.CJK if k not in gen.SYNC_UNSAFE]
    n = r.choice([600, 2000, 5000])
    x = []
    for _ in range(n): x += [r.choice(pool), 97, 98]
    y = [r.choice(pool + [WILD]) if k not in (97, 98) and r.random() < 0.7 else k for k in x]
    judge(c, g.plain(x), g.marked(y, r.choice([0, 0.02, 0.2])))
def classes(c):
    """Every character class, and the boundaries of the ranges."""
    g = gen.Gen(c.rng); r = c.rng
    pts = [p for lo, hi, _ in model.CLASS_RANGES for p in (lo - 1, lo, (lo + hi) // 2, hi, hi + 1)]
    pts = sorted({p for p in pts if gen.valid(p) and p not in (94,) and p not in gen.SYNC_UNSAFE})
    x = r.sample(pts, r.randint(1, len(pts)))
    y = [p for p in x if r.random() < 0.9]
    judge(c, g.plain(x), g.marked(y, 0.05))
def huge(c):
    g = gen.Gen(c.rng); r = c.rng
    x = long_text(g, r.choice([30000, 66000, 70001]))
    y = few_edits(g, x, 200, gen.LATIN[:26] + [10, WILD, 0x4E00])
    for _ in range(20): x[r.randrange(len(x))] = WILD
    judge(c, g.plain(x), g.marked(y, 0.01))
def longdiff(c):
    """A difference of tens of thousands of characters, marked or not."""
    g = gen.Gen(c.rng); r = c.rng
    L = [32767, 32768, 32769, 65535, 65536, 65537, 40000, 70001, 131072, 5000][c.index % 10]
    fill = [r.choice([0x7A, 0x79])] * L if r.random() < 0.7 else [0x70 + i % 5 for i in range(L)]
    if r.random() < 0.5: fill[::60] = [10] * len(fill[::60]); fill[0] = fill[-1] = 0x79
    a, b = [list(map(ord, r.choice(["ab", "abc\nd", "a", "ab cd ef"]))) for _ in range(2)]
    x, y = a + b, a + fill + b
    kind = c.index // 10 % 3
    if kind == 1: x, y = y, x
    if kind == 2: y += [0x4E00]; x += [0x4E01]
    judge(c, g.plain(x), g.marked(y, r.choice([0, 0.0001, 0.001, 1.0]) if kind != 1 else 0.2))

def manydiff(c):
    """Thousands of differences of every kind."""
    g = gen.Gen(c.rng); r = c.rng
    x, y = [], []
    k = c.index % 3
    for i in range([5100, 900, 1500][k]):
        m = [97 + (i * 7 + j) % 9 for j in range(2 if k == 0 else 6)]
        x += m; y += m
        w = 1 if k == 0 else r.randrange(4)
        e = [r.choice([65, 66, 0x410, 0x4E00, WILD if k else 67]) for _ in range(1 if k == 0 else r.choice([1, 1, 2, 3]))]
        if w == 1: y += e
        elif w == 2: x += e
        elif w == 3: x += e; y += [r.choice([75, 76, 0x420, WILD]) for _ in range(r.choice([1, 1, 2]))]
    if r.random() < 0.5: x, y = y, x
    judge(c, g.plain(x), g.marked(y, r.choice([0, 0.01, 0.2])))
FAMILIES = {"manydiff": (manydiff, 6, 60), "repeated": (repeated, 300, 4000), "longdiff": (longdiff, 30, 120), "small": (small, 1200, 20000), "unsafe": (unsafe, 300, 4000), "marks": (marks, 700, 8000), "long_conf": (long_conf, 250, 2500),
            "many": (many, 16, 160), "classes": (classes, 40, 300), "huge": (huge, 4, 30)}
BIG = ("manydiff", "huge", "many", "longdiff")
MIN_NONTRIVIAL = 500
