"""wordacc's Misrecognized."""
from props.common import *
RULE = ("a case is a pair of texts; Words and Misrecognized are compared with the word count of the reference segmentation and an independent bit-parallel LCS of the "
        "word sequences; non-trivial if some words match and some do not")
def judge(c, xb, yb, kind, ws=None, vs=None, opts=(), out=False, variant="asan"):
    c.w("x", xb); c.w("y", yb)
    ws = model.words_of(xb) if ws is None else ws
    vs = model.words_of(yb) if vs is None else vs
    r = c.run("wordacc", *opts, "x", "y", *(["o"] if out else []), variant=variant)
    n, m, p = wac_head(c.r("o") if out else r.out)
    k = model.lcs_len(ws, vs)
    if n != len(ws): c.fail("Words %d, the correct text has %d (%s)" % (n, len(ws), kind), "words")
    if m != n - k: c.fail("Misrecognized %d of %d, a longest common subsequence has %d words (%s)" % (m, n, k, kind), "misrecognized")
    if p != model.pct(n - m, n).encode(): c.fail("accuracy %r for %d of %d" % (p, n - m, n), "accuracy")
    c.count("words", n); c.count("misrecognized", m)
    c.note((xb, yb) if len(xb) < 3000 else (c.family, c.index), 0 < m < n, sample=[xb.decode(errors="replace"), yb.decode(errors="replace"), m] if len(xb) < 100 else None)
def tiny(c):
    r = c.rng
    v = r.choice(["ab", "abc", "abcd", "abcde"])
    f = lambda k: " ".join(r.choice(v) for _ in range(k)).encode()
    judge(c, f(r.randint(0, 12)), f(r.randint(0, 12)), "tiny")
def repeated(c):
    """The same motifs repeated over and over: long common runs that overlap each other."""
    g = gen.Gen(c.rng); r = c.rng
    x, y = g.repeats(2, list(range(6)))
    f = lambda t: " ".join("w%d" % k for k in t).encode()
    judge(c, f(x), f(y), "repeated")
def some(c):
    g = gen.Gen(c.rng); r = c.rng
    voc = g.vocab(r.choice([2, 5, 20]))
    ws = g.words(r.randint(0, 60), voc)
    vs = g.mutate_words(ws, voc + ["foreign%d" % i for i in range(3)]) if r.random() < 0.85 else g.words(r.randint(0, 60), voc)
    judge(c, g.join(ws).encode(), g.join(vs).encode(), "some", out=r.random() < 0.1)
def asym(c):
    """One text much longer; words absent from the other."""
    g = gen.Gen(c.rng); r = c.rng
    voc = ["w%d" % i for i in range(r.choice([3, 10]))]
    f = lambda k, p: [r.choice(voc) if r.random() < p else "x%d" % r.randint(0, 99) for _ in range(k)]
    a, b = f(r.randint(0, 8), 1), f(r.randint(50, 400), r.choice([0.1, 0.5, 1]))
    if r.random() < 0.5: a, b = b, a
    judge(c, " ".join(a).encode(), "\n".join(b).encode(), "asym")
def lopsided(c):
    """Thousands of words against tens, all of them common to both."""
    r = c.rng
    n = [2500, 3500, 9000, 21000, 40000, 66000][c.index // 2 % 6]
    voc = ["w%d" % i for i in range(r.choice([2, 10, 40]))]
    a = [r.choice(voc) for _ in range(r.choice([20, 200]))]
    b = []
    while len(b) < n:
        some = r.sample(voc, r.choice([1, 1, 2]))
        b += [r.choice(some) for _ in range(r.choice([1, 10, n // 20, n // 8, n // 4]))]
    b = b[:n]
    if n > 60000: b = [w if r.random() < 0.9 else "x" for w in b]
    if c.index % 2: a, b = b, a
    e = lambda v: [w.encode() for w in v]
    judge(c, " ".join(a).encode(), "\n".join(b).encode(), "lopsided", e(a), e(b), variant="plain")
def medium(c):
    g = gen.Gen(c.rng); r = c.rng
    voc = ["w%d" % i for i in range(r.choice([5, 50, 1000]))]
    n = r.choice([300, 1000, 2500])
    ws = g.words(n, voc)
    vs = g.mutate(ws, voc, rate=r.choice([0.01, 0.1, 0.3])) if r.random() < 0.8 else g.words(r.choice([200, 2000]), voc)
    e = lambda v: [w.encode() for w in v]
    judge(c, " ".join(ws).encode(), " ".join(vs).encode(), "medium", e(ws), e(vs))
def big(c):
    g = gen.Gen(c.rng); r = c.rng
    n = [32767, 32769, 65534, 65535, 60000, 65535][c.index % 6]
    ws = [("%x" % (i * 7919 % 3001)).replace("e", "g") + "z" for i in range(n)]
    ws = ["q" + w for w in ws]
    vs = list(ws)
    for _ in range(r.randint(5, 60)):
        i = r.randrange(len(vs)); k = r.random()
        if k < 0.4: del vs[i]
        elif k < 0.7: vs[i] = r.choice(ws)
        else: vs.insert(i, r.choice(ws))
    if c.index % 3 == 2: vs = vs + r.sample(ws, 400)
    if c.index % 2: vs = vs[r.randint(1, 60):]
    e = lambda v: [w.encode() for w in v]
    judge(c, " ".join(ws).encode(), "\n".join(vs).encode(), "big", e(ws), e(vs), variant="plain")
def limit(c):
    """More common words than can be compared: refused, or the right answer."""
    for n in (65535, 65536, 65537, 131072 + 5):
        c.w("x", b"a " * n); c.w("y", b"a " * n)
        r = c.run("wordacc", "x", "y", ok=(0, 1), variant="plain", quiet_err=True)
        if r.rc == 0:
            h = wac_head(r.out)
            if h[:2] != (n, 0): c.fail("%d words: %r" % (n, h), "misrecognized")
            c.count("accepted")
        else:
            if n <= 65535 or not r.err or r.out: c.fail("%d words refused: %r" % (n, r.err), "refused")
            c.count("refused")
    c.w("x", b"a " * 30000 + b"u " * 70000); c.w("y", b"v " * 70000 + b"a " * 29990)
    h = wac_head(c.run("wordacc", "x", "y", variant="plain").out)
    if h[:2] != (100000, 70010): c.fail("100,000 words of which 30,000 common: %r" % (h,), "misrecognized")
    c.w("x", b"a " * 100 + b"u\n"); c.w("y", b"a " * 70000)
    h = wac_head(c.run("wordacc", "x", "y", variant="plain").out)
    if h[:2] != (101, 1): c.fail("100 words in 70,000: %r" % (h,), "misrecognized")
    c.note("limit", True)
VARIANTS = ("asan", "plain")
FAMILIES = {"repeated": (repeated, 250, 4000), "tiny": (tiny, 1700, 30000), "some": (some, 1100, 15000), "asym": (asym, 300, 3000), "lopsided": (lopsided, 12, 60), "medium": (medium, 100, 1200), "big": (big, 6, 36), "limit": (limit, 1, 1)}
BIG = ("big", "limit", "medium")
MIN_NONTRIVIAL = 800
