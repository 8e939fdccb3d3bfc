"""vote."""
from props.common import *
RULE = ("a case is 2..16 texts and options; the vote over the regions that synctext -H displays of the same texts (for -O the three selected by the median "
        "bigram distance) is recomputed and compared; non-trivial if the voters are not all equal and something is output")
def judge(c, datas, w=None, s=None, O=False, o=False, header=False):
    r = c.rng
    n = len(datas)
    names = [c.w("t%d" % i, d) for i, d in enumerate(datas)]
    texts = [text(d) for d in datas]
    opts = []
    if w: opts.append(r.choice([["-w", "%d/%d" % w], ["-w%d/%d" % w]]))
    if s: opts.append(r.choice([["-s", "%d/%d" % s], ["-s%d/%d" % s]]))
    if O: opts.append(["-O"])
    if o: opts.append(r.choice([["-o", "out"], ["-oout"]]))
    args = [[x] for x in names]
    for x in opts: args.insert(r.randint(0, len(args)), x)
    res = c.run("vote", *sum(args, []))
    got = c.r("out") if o else res.out
    if o and res.out: c.fail("output in two places", "two-places")
    sel = list(range(n))
    if O:
        d = model.bigram_distances([cps(t) for t in texts])
        sel = sorted(range(n), key=lambda i: (d[i], i))[:3]
        c.count("selections", n > 3)
    vn = [names[i] for i in sel]; vt = [texts[i] for i in sel]
    if len(set(vn)) != len(vn): raise Bad("internal")
    regions = model.parse_sync(c.run("synctext", "-H", *vn).out, vn)
    model.check_regions(regions, [cps(t) for t in vt])
    out = model.vote(regions, vt, *(w or (1, 1)), s)
    want = write_text(out)
    c.same(got, want, "vote of %d with weights %s, threshold %s%s" % (n, w, s, ", -O" if O else ""))
    c.count("positions", len(out)); c.count("marked characters", sum(q for _, q in out)); c.count("rejects voted", sum(p == WILD for p, _ in out))
    c.note((datas, w, s, O), out and len(set(map(tuple, map(cps, texts)))) > 1, sample=[str(opts)] + [d.decode(errors="replace") for d in datas] if sum(map(len, datas)) < 120 else None)
def write_text(out):
    return model.written(out)
def voters(g, k, n, a):
    x = g.seq(n, a)
    rate = g.r.choice([0.02, 0.1, 0.3])
    return [g.mutate(x, a, rate=rate, moves=g.r.choice([0, 0, 1])) for _ in range(k)]
def frac(r):
    m = r.randint(1, 9); return (m, r.randint(m, 9))
def small(c):
    g = gen.Gen(c.rng); r = c.rng
    a = g.alphabet(sync_safe=True)
    v = voters(g, r.choice([2, 2, 3, 3, 3, 4, 5, 7]), g.size(), a)
    p = r.choice([0, 0, 0.1, 0.5])
    judge(c, [g.marked(t, p) for t in v], frac(r) if r.random() < 0.5 else None, frac(r) if r.random() < 0.5 else None, False, r.random() < 0.1)
def repeated(c):
    """The same motifs repeated over and over: long common runs that overlap each other."""
    g = gen.Gen(c.rng); r = c.rng
    a = g.alphabet(sync_safe=True) if r.random() < 0.3 else list(map(ord, "abcdefghij"))
    k = r.choice([2, 3, 4])
    judge(c, [g.marked(t, 0.05) for t in g.repeats(k, a)], frac(r), frac(r), O=k == 4)
def tiny(c):
    g = gen.Gen(c.rng); r = c.rng
    a = list(map(ord, r.choice(["ab", "abc", "ab~", "a~", "ab\n "])))
    judge(c, [g.marked([r.choice(a) for _ in range(r.randint(0, 7))], r.choice([0, 0.3])) for _ in range(r.choice([2, 3, 3, 4, 5]))],
          frac(r) if r.random() < 0.5 else None, frac(r) if r.random() < 0.5 else None)
def optimize(c):
    g = gen.Gen(c.rng); r = c.rng
    a = g.alphabet(sync_safe=True)
    v = voters(g, r.choice([2, 3, 3, 4, 4, 5, 6, 9, 16]), r.choice([3, 10, 40, 90]), a)
    judge(c, [g.marked(t, r.choice([0, 0.2])) for t in v], frac(r) if r.random() < 0.3 else None, frac(r) if r.random() < 0.5 else None, True)
def more(c):
    g = gen.Gen(c.rng); r = c.rng
    a = g.alphabet(sync_safe=True)
    v = voters(g, r.choice([8, 11, 15, 16, 16]), r.choice([5, 30, 60]), a)
    judge(c, [g.marked(t, r.choice([0, 0.2])) for t in v], frac(r) if r.random() < 0.5 else None, frac(r) if r.random() < 0.7 else None)
def fractions(c):
    """Every threshold and weight."""
    g = gen.Gen(c.rng); r = c.rng
    fr = [(m, n) for n in range(1, 10) for m in range(1, n + 1)]
    s, w = fr[c.index % 45], fr[c.index * 7 // 45 % 45] if c.index >= 45 else None
    a = list(map(ord, "abc"))
    v = voters(g, r.choice([2, 3, 4, 5, 8, 16]), 25, a)
    judge(c, [g.marked(t, 0.3) for t in v], w, s)
def medium(c):
    g = gen.Gen(c.rng); r = c.rng
    x = long_text(g, r.choice([1000, 3000]))
    v = [few_edits(g, x, 40, gen.LATIN[:26] + [WILD, 10]) for _ in range(r.choice([2, 3, 5]))]
    judge(c, [g.marked(t, 0.02) for t in v], None, (1, 2), r.random() < 0.4)
def regions(c):
    """A vote over hundreds to thousands of regions, and a selection by as many different pairs of characters."""
    r = c.rng; g = gen.Gen(r)
    n = [300, 520, 400, 600][c.index % 4]
    k = r.choice([3, 4, 5])
    _, ts = many_runs(r, n, k)
    judge(c, [g.marked(t, 0.05) for t in ts], None, r.choice([None, (1, 2), (1, 1)]), O=k > 3 or r.random() < 0.3)
def equal(c):
    """All voters agree; or all but one."""
    g = gen.Gen(c.rng); r = c.rng
    a = g.alphabet(sync_safe=True)
    x = g.seq(g.size(), a); k = r.randint(2, 16)
    d = [g.plain(x)] * k
    if r.random() < 0.7: d[r.randrange(k)] = g.plain(g.mutate(x, a))
    judge(c, d, None, frac(r) if r.random() < 0.5 else None, r.random() < 0.3)
def refuse(c):
    for i in range(18): c.w("t%d" % i, b"abc%d" % i)
    n = ["t%d" % i for i in range(18)]
    for a in ([n[0]], n[:17], n, ["-s", "2/1"] + n[:2], ["-s", "0/1"] + n[:2], ["-s", "1/10"] + n[:2], ["-w", "x"] + n[:2], ["-w", "5/4"] + n[:2], ["-w", ""] + n[:2], ["-s1", *n[:2]],
              ["-s", "1/2", "-s", "1/2"] + n[:2], ["-O", "-O"] + n[:2], ["-s", "1-2"] + n[:2], ["-s", "/12"] + n[:2], ["-s", "1/:"] + n[:2], ["-s1/a"] + n[:2], ["-w", "1/z"] + n[:2], ["-w", ":/;"] + n[:2], ["-w", "1/99"] + n[:2], ["-s", "1/"] + n[:2], ["-O"] + n[:1]):
        c.expect_error("vote", *a)
    c.expect_error("vote", *(n[:2] * 32769))
    c.note("refuse", False)
FAMILIES = {"repeated": (repeated, 200, 2500), "small": (small, 900, 12000), "tiny": (tiny, 1000, 15000), "optimize": (optimize, 600, 8000), "more": (more, 150, 1500), "fractions": (fractions, 135, 1000), "regions": (regions, 8, 80), "medium": (medium, 16, 150),
            "equal": (equal, 120, 1000), "refuse": (refuse, 1, 1)}
BIG = ("regions", "medium",)
MIN_NONTRIVIAL = 700
