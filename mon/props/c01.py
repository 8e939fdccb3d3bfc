"""accuracy's Errors is the edit distance."""
from props.common import *
RULE = ("a case is a pair of texts (seeded generator; families: small tiny-alphabet texts, texts with ~ on either side, larger ones, sizes "
        "around powers of two, more than 65,536 characters); the oracle is an independent bit-parallel edit distance; a case is "
        "non-trivial if the two normalised texts differ and neither is empty")

def judge(c, cb, gb, kind):
    a, b = c.w("a", cb), c.w("b", gb)
    use_file = c.rng.random() < 0.1
    r = c.run("accuracy", a, b, *(["r"] if use_file else []))
    out = c.r("r") if use_file else r.out
    x, y = cps(text(cb)), cps(text(gb))
    wild = x.count(WILD)
    chars, errors = acc_head(out)
    want = model.lev(x, y) - wild
    if chars != len(x) - wild: c.fail("Characters %d, the correct text has %d (%s)" % (chars, len(x) - wild, kind), "characters")
    if errors != want: c.fail("Errors %d, edit distance %d; texts %d and %d characters (%s)" % (errors, want, len(x), len(y), kind), "errors")
    c.count("edit operations", want); c.count("characters", len(x))
    if wild: c.count("wildcards", wild)
    if WILD in y: c.count("texts with rejects")
    c.note((x, y) if len(x) < 3000 else (kind, c.index), x != y and x and y, sample=[cb[:300].decode(errors="replace"), gb[:300].decode(errors="replace"), errors] if len(x) < 100 else None)

def small(c):
    g = gen.Gen(c.rng)
    x, y, a = g.pair()
    judge(c, g.plain(x), g.marked(y), "small")
def tiny(c):
    g = gen.Gen(c.rng); r = c.rng
    a = list(map(ord, r.choice(["ab", "ab~", "a~", "abc~~", "ab\n~"])))
    judge(c, g.plain([r.choice(a) for _ in range(r.randint(0, 9))]), g.plain([r.choice(a) for _ in range(r.randint(0, 9))]), "tiny")
def repeated(c):
    """The same motifs repeated over and over: long common runs that overlap each other."""
    g = gen.Gen(c.rng); r = c.rng
    a = g.alphabet() if r.random() < 0.3 else list(map(ord, "abcdefghij"))
    x, y = g.repeats(2, a)
    judge(c, g.plain(x), g.plain(y), "repeated")
def wild(c):
    g = gen.Gen(c.rng); r = c.rng
    a = g.alphabet(wild=1.0) + [WILD] * r.randint(0, 3)
    x = g.seq(g.size(), a)
    y = g.mutate([r.choice(a) if k == WILD and r.random() < 0.7 else k for k in x], a)
    judge(c, g.plain(x), g.marked(y), "wild")
def medium(c):
    g = gen.Gen(c.rng); r = c.rng
    a = g.alphabet()
    x = g.seq(r.randint(300, 2500), a)
    y = g.mutate(x, a) if r.random() < 0.8 else g.seq(r.randint(1, 2500), a)
    judge(c, g.plain(x), g.plain(y), "medium")
def edge(c):
    g = gen.Gen(c.rng); r = c.rng
    n = edges(c)
    a = gen.LATIN[:26] + [32, 10]
    x = long_text(g, n)
    y = few_edits(g, x, r.randint(0, 40), a)
    if r.random() < 0.5: y = (y + long_text(g, 200))[:n + r.randint(-2, 2)]
    if r.random() < 0.5: x, y = y, x
    judge(c, g.plain(x), g.plain(y), "edge %d" % n)
def far(c):
    """Thousands of edit operations."""
    g = gen.Gen(c.rng); r = c.rng
    a = gen.LATIN[:r.choice([2, 4, 20])] + [10]
    n = int(2 ** r.uniform(10, 12.8))
    x = [r.choice(a) for _ in range(n)]
    k = r.random()
    if k < 0.4: y = [r.choice(a) for _ in range(int(n * r.uniform(0.6, 1.4)))]
    elif k < 0.6: y = [ord("Z")] * int(n * r.uniform(0.8, 1.2))
    else: y = g.mutate(x[:n // 3], a) + [r.choice(a) for _ in range(n // 3)] + g.mutate(x[2 * n // 3:], a)
    judge(c, g.plain(x), g.plain(y), "far")
def huge(c):
    g = gen.Gen(c.rng); r = c.rng
    n = r.choice([65534, 65535, 65536, 65537, 70000, 90000, 131071, 131073, 140000])
    a = gen.LATIN[:26] + [32, 10]
    x = long_text(g, n, line=r.choice([70, 70, 5000]))
    k = c.index % 4
    if k == 0: y = few_edits(g, x, 60, a)
    elif k == 1: y = few_edits(g, x[:n // 2] + x[n // 2 + r.randint(200, 2000):], 20, a)
    elif k == 2: y = few_edits(g, x[:100] + long_text(g, 1000) + x[100:], 30, a)
    else: y = few_edits(g, x[r.randint(1, 900):] + x[:300], 30, a)
    if r.random() < 0.5: x, y = y, x
    judge(c, g.plain(x), g.plain(y), "huge")
def lopsided(c):
    """One text far longer than the other."""
    g = gen.Gen(c.rng); r = c.rng
    n = [1000, 5000, 20000, 40000, 66000, 80000][c.index % 6]
    x = long_text(g, n)
    y = [r.choice([97, 98, 126, 10]) for _ in range(r.randint(0, 4))] if c.index % 2 else sorted(r.sample(range(n), 30))
    if c.index % 2 == 0: y = [x[i] for i in y]
    if c.index // 2 % 2 == 0:             # characters that occur once only, up to the very end
        x = list(x)
        for i, p in enumerate(r.sample(range(n - 400), 12) + r.sample(range(n - 400, n), 6)): x[p] = 0x4E00 + i
        y = [k for k in x if k >= 0x4E00]
    if (c.index + c.index // 6) % 2: x, y = y, x
    judge(c, g.plain(x), g.plain(y), "lopsided")

FAMILIES = {"repeated": (repeated, 300, 5000), "small": (small, 1400, 30000), "tiny": (tiny, 1800, 40000), "wild": (wild, 500, 8000), "medium": (medium, 200, 3000),
            "edge": (edge, 60, 600), "far": (far, 16, 200), "huge": (huge, 12, 80), "lopsided": (lopsided, 12, 48)}
BIG = ("huge", "lopsided", "far")
MIN_NONTRIVIAL = 1000
