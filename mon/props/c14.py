"""ngram."""
from props.common import *
RULE = ("a case is 1..40 text files and n (given as -n N, -nN or left out); the whole output is compared with a reference count; non-trivial if at least "
        "two different n-grams occur, one of them twice")
def expect(texts, n):
    tab = {}
    for t in texts:
        for i in range(len(t) - n + 1):
            k = tuple(p for p, _ in t[i:i+n])
            e = tab.setdefault(k, [0, 0]); e[0] += 1; e[1] += any(q for _, q in t[i:i+n])
    ln = lambda k: "%8d %8d   {%s}" % (*tab[k], "".join(u8.render(p, fake=True) for p in k))
    tot = "%8d %8d   Total" % (sum(v[0] for v in tab.values()), sum(v[1] for v in tab.values()))
    head = "   Count  Suspect"
    a = [head] + [ln(k) for k in sorted(tab)] + [tot, "", ""]
    b = [head] + [ln(k) for k in sorted(tab, key=lambda k: (-tab[k][0], -tab[k][1], k))] + [tot]
    return ("\n".join(a + b) + "\n").encode("utf-8", "surrogatepass"), tab
def judge(c, datas, n, dup=None):
    r = c.rng
    names = [c.w("t%d" % i, d) for i, d in enumerate(datas)]
    if dup: names = [names[i] for i in dup]; datas = [datas[i] for i in dup]
    opt = r.choice([["-n", str(n)], ["-n%d" % n]] + ([[]] if n == 1 else []))
    p = r.randint(0, len(names))
    got = c.run("ngram", *names[:p], *opt, *names[p:]).out
    want, tab = expect([text(d) for d in datas], n)
    c.same(got, want, "n-grams, n = %d, %d files" % (n, len(names)))
    c.count("n-grams", len(tab)); c.count("suspect n-grams", sum(v[1] > 0 for v in tab.values())); c.count("n=%d" % n)
    c.note((datas, n) if sum(map(len, datas)) < 5000 else (c.family, c.index), len(tab) > 1 and any(v[0] > 1 for v in tab.values()),
           sample=[n] + [d.decode(errors="replace") for d in datas] if sum(map(len, datas)) < 100 else None)
def small(c):
    g = gen.Gen(c.rng); r = c.rng
    a = g.alphabet()
    ds = [g.marked(g.seq(g.size(), a)) for _ in range(r.choice([1, 1, 1, 2, 3, 8]))]
    if r.random() < 0.1: ds[0] = g.header() + ds[0]
    judge(c, ds, r.choice([1, 2, 3]), [r.randrange(len(ds)) for _ in range(5)] if r.random() < 0.1 else None)
def short(c):
    """Files shorter than n."""
    r = c.rng
    judge(c, [r.choice([b"", b"a", b"ab", b"abc", b"\n", b"^", b"^a", b"a^", b"a\nb", b"abcd"]) for _ in range(r.randint(1, 6))], r.choice([1, 2, 3]))
def wide(c):
    """Large vocabularies."""
    g = gen.Gen(c.rng); r = c.rng
    pool = r.choice([gen.LATIN, gen.LATIN + gen.CYR + gen.GREEK, list(range(0x4E00, 0x9000)), [p for p in range(0x300, 0x900) if p != 94]])
    judge(c, [g.marked([r.choice(pool) for _ in range(r.choice([2000, 6000, 12000]))], r.choice([0, 0.1]))], r.choice([1, 2, 3]))
def allchars(c):
    lo = c.index * 0x1100
    cs = [p for p in range(lo, lo + 0x1100) if gen.valid(p) and p != 94]
    judge(c, ["".join(map(chr, cs)).encode()], 1 + c.index % 3)
def order(c):
    """Ties in count and suspect count; order by character code across planes."""
    g = gen.Gen(c.rng); r = c.rng
    pool = r.sample([1, 0x7F, 97, 98, 0xE9, 0x301, 0xFFFF, 0x10000, 0xE000, 0x10FFFF, 0x4E00, 0x378, 10, 126], r.randint(2, 8))
    judge(c, [g.marked(g.seq(r.randint(5, 60), pool), r.choice([0, 0.3]))], r.choice([1, 2, 3]))
def huge(c):
    g = gen.Gen(c.rng)
    judge(c, [g.marked(long_text(g, 70000), 0.01), g.plain(long_text(g, 66000, [97, 98]))], 1 + c.index % 3)
def many(c):
    c.w("x", b"ab^c")
    n = 33000
    got = c.run("ngram", "-n2", *(["x"] * n), variant="plain").out
    if b"%8d %8d   {ab}\n%8d %8d   {bc}\n%8d %8d   Total\n" % (n, 0, n, n, 2 * n, n) not in got: c.fail("n-grams of %d files: %r" % (n, got[:200]), "many-files")
    c.note("many", True)
def refuse(c):
    c.w("x", b"abc")
    for a in (["-n", "0", "x"], ["-n", "4", "x"], ["-n", "12", "x"], ["-n", "x", "x"], ["-n1"], ["-n", "2"], ["-n", "1", "-n", "2", "x"], ["-n", "-1", "x"], ["-n", "", "x"], ["-n2x", "x"], ["x", "missing"]):
        c.expect_error("ngram", *a)
    c.note("refuse", False)
VARIANTS = ("asan", "plain")
FAMILIES = {"small": (small, 1800, 25000), "short": (short, 200, 1500), "wide": (wide, 40, 400), "allchars": (allchars, 256, 256, "fixed"), "order": (order, 400, 4000),
            "huge": (huge, 3, 20), "many": (many, 1, 1), "refuse": (refuse, 1, 1)}
BIG = ("huge", "many", "wide")
MIN_NONTRIVIAL = 600
