"""Heuristic and multi-file synctext."""
from props.common import *
RULE = ("a case is 2 texts with -H or 3..16 texts; the output is parsed, every text rebuilt, and the alignment must be one that recursive "
        "longest-match-first search can produce (all ties searched); non-trivial if at least two matches are shown")

def judge(c, datas, opts, budget=20000):
    names = [c.w("t%d" % i, d) for i, d in enumerate(datas)]
    sus = "-s" in opts; low = "-i" in opts
    args = list(names)
    for o in opts: args.insert(c.rng.randint(0, len(args)), o)
    regions = model.parse_sync(c.run("synctext", *args).out, names, sus)
    tx = [text(d, lower=low) for d in datas]
    T = [cps(t) for t in tx]
    spans = model.check_regions(regions, T)
    if sus:
        for (k, v), (_, sp) in zip(regions, spans):
            parts = [[q for _, q in t[s:e]] for t, (s, e) in zip(tx, sp)]
            if k == "m": c.same(str([q for _, q in v]), str([any(p) for p in zip(*parts)]), "markers of a match")
            else:
                for w, p in zip(v, parts): c.same(str([q for _, q in w]), str(p), "markers of a difference")
    nm = sum(k == "m" for k, _ in regions)
    if len(T) == 2:
        for k, sp in spans:
            if k == "d" and (set(T[0][sp[0][0]:sp[0][1]]) & set(T[1][sp[1][0]:sp[1][1]])) - {WILD}:
                c.fail("a stretch with common characters is left unmatched", "unmatched")
    v = model.check_heuristic(spans, T, budget) if max(map(len, T)) <= 1200 else None
    if v is False: c.fail("not a longest-match-first alignment of %d texts" % len(T), "not-longest-first")
    c.count("alignments decided" if v else "alignments checked for losslessness only"); c.count("matches", nm); c.count("texts", len(T))
    c.note((datas, opts), nm > 1, sample=[list(opts)] + [d.decode(errors="replace") for d in datas] if sum(map(len, datas)) < 150 else None)

def variants(g, k, n, a):
    x = g.seq(n, a)
    return [x if i == 0 and g.r.random() < 0.5 else g.mutate(x, a) for i in range(k)]
def two(c):
    g = gen.Gen(c.rng); r = c.rng
    x, y, a = g.pair(sync_safe=True)
    o = r.choice([("-H",), ("-H",), ("-H", "-i"), ("-H", "-s")])
    f = g.marked if "-s" in o else g.plain
    judge(c, [f(x), f(y)], o)
def three(c):
    g = gen.Gen(c.rng); r = c.rng
    a = g.alphabet(sync_safe=True)
    o = r.choice([(), (), ("-H",), ("-s",), ("-i",), ("-s", "-i", "-H")])
    f = g.marked if "-s" in o else g.plain
    judge(c, [f(t) for t in variants(g, r.choice([3, 3, 4, 5]), g.size(), a)], o)
def more(c):
    g = gen.Gen(c.rng); r = c.rng
    a = g.alphabet(sync_safe=True)
    o = r.choice([(), (), ("-s",), ("-s", "-i")])
    ts = variants(g, r.choice([6, 8, 12, 15, 16, 16]), r.choice([5, 20, 60]), a)
    one = r.randrange(len(ts)) if r.random() < 0.5 else None # marks in one text only
    judge(c, [g.marked(t, 0.3 if one is not None else 0.1) if "-s" in o and one in (None, i) else g.plain(t) for i, t in enumerate(ts)], o)
def tiny(c):
    g = gen.Gen(c.rng); r = c.rng
    a = list(map(ord, r.choice(["ab", "abc", "ab~", "abcd"])))
    k = r.choice([2, 3, 3, 4])
    judge(c, [g.plain([r.choice(a) for _ in range(r.randint(0, 10))]) for _ in range(k)], ("-H",) if k == 2 else ())
def repeated(c):
    """The same motifs repeated over and over: long common runs that overlap each other."""
    g = gen.Gen(c.rng); r = c.rng
    k = r.choice([2, 2, 2, 3, 5])
    a = g.alphabet(sync_safe=True) if r.random() < 0.3 else list(map(ord, "abcdefghij"))
    judge(c, [g.plain(t) for t in g.repeats(k, a)], ("-H",) if k == 2 else ())
def empty(c):
    """Some texts empty, or equal, or sharing nothing."""
    g = gen.Gen(c.rng); r = c.rng
    pool = [b"", b"abc", b"abc", b"xyz\nabc", b"~~", b"~a~", b"\n", b"ab"]
    k = r.randint(2, 16)
    judge(c, [r.choice(pool) for _ in range(k)] if r.random() < 0.6 else [r.choice(pool)] * k, ("-H",) if k == 2 else ())
def medium(c):
    g = gen.Gen(c.rng); r = c.rng
    a = gen.LATIN[:r.choice([4, 26])] + [32, 10]
    k = r.choice([2, 3])
    x = g.seq(r.randint(200, 700), a)
    judge(c, [g.plain(g.mutate(x, a, rate=r.choice([0.02, 0.1]))) for _ in range(k)], ("-H",) if k == 2 else (), budget=60000)
def large(c):
    """Blocks of distinct characters, so that the longest match is unambiguous and the texts may be long."""
    g = gen.Gen(c.rng); r = c.rng
    n = [3000, 6000, 9000, 5000][c.index % 4]
    x = long_text(g, n)
    ys = [few_edits(g, x, 25, gen.LATIN[:26]) for _ in range(r.choice([1, 2, 4]))]
    judge(c, [g.plain(t) for t in [x] + ys], ("-H",) if len(ys) == 1 else ())
def runs(c):
    """Common runs of thousands of characters, the longest not first; which are matched is known."""
    g = gen.Gen(c.rng); r = c.rng
    sizes = [[2100, 2500], [900, 1100, 1000], [4200, 300, 4300], [520, 510, 530, 40], [3000, 5000], [260, 255, 256, 257, 300], [130, 127, 128, 140, 7], [1000, 2000, 3000]][c.index % 8]
    if r.random() < 0.5: sizes = sizes[::-1]
    bl = distinct_blocks(sizes)
    k = 2 if sum(sizes) > 5000 else r.choice([2, 2, 3])
    junk = lambda i: [r.choice([0x41, 0x42] if i == 0 else [0x61, 0x62] if i == 1 else [0x31]) for _ in range(r.choice([0, 1, 3]))]
    orders = [list(range(len(bl)))]
    for i in range(1, k):
        o = list(orders[0])
        if c.index // 8 % 4: r.shuffle(o)
        orders.append(o)
    datas = [g.plain(sum((junk(i) + bl[b] for b in o), []) + junk(i)) for i, o in enumerate(orders)]
    names = [c.w("t%d" % i, d) for i, d in enumerate(datas)]
    out = c.run("synctext", *(["-H"] if k == 2 else []), *names, variant="plain").out
    regions = model.parse_sync(out, names, False)
    model.check_regions(regions, [cps(text(d)) for d in datas])
    def best(os):
        if not os[0]: return []
        # the longest run of the first two texts, then what the others have of it
        common = set(os[0]) & set(os[1])
        if not common: return []
        b = max(common, key=lambda q: sizes[q])
        if any(b not in o for o in os[2:]): return []
        at = [o.index(b) for o in os]
        return best([o[:i] for o, i in zip(os, at)]) + [b] + best([o[i + 1:] for o, i in zip(os, at)])
    # neighbouring blocks without anything between them form one run
    want = best(orders)
    total, lens = sum(len(v) for kk, v in regions if kk == "m"), sum(sizes[b] for b in want)
    joined = set(zip(orders[0], orders[0][1:])) & set(zip(orders[1], orders[1][1:]))
    if len(set(sizes)) == len(sizes) and not joined or orders[1:] == orders[:-1]:
        if total != lens: c.fail("%d characters are matched, longest-first choice among runs of %r in the orders %r matches %d" % (total, sizes, orders, lens), "not-longest-first")
        c.count("alignments of long runs decided")
    c.note((sizes, orders, c.index), len(want) > 1)
COUNTS = [257, 520, 1030, 300, 1500, 2050, 1000, 700]
def regions(c):
    """Hundreds to thousands of common runs: every one of them must be matched."""
    r = c.rng
    n = COUNTS[c.index % len(COUNTS)]
    k = [2, 3, 2, 4, 2, 2, 3, 16][c.index % 8]
    runs_, ts = many_runs(r, n, k)
    names = [c.w("t%d" % i, "".join(map(chr, t)).encode()) for i, t in enumerate(ts)]
    reg = model.parse_sync(c.run("synctext", *(["-H"] if k == 2 else []), *names, variant="plain").out, names, False)
    model.check_regions(reg, ts)
    got = [[p for p, _ in v] for kk, v in reg if kk == "m"]
    if got != runs_: c.fail("%d of %d common runs are matched" % (len([v for v in got if v in runs_]), n), "not-longest-first")
    c.count("common runs, many of them", n); c.note(("regions", n, k, c.index), True)
def refuse(c):
    r = c.rng
    names = [c.w("t%d" % i, b"abc\n") for i in range(20)]
    n = [0, 1, 17, 18, 20, 17][c.index % 6]
    o = [(), ("-H",), ("-s",), ("-i",)][c.index // 6 % 4]
    if n == 0 and not o: return
    c.expect_error("synctext", *o, *(names[:n] if n < 20 else names * 4))
    if n == 17: c.expect_error("synctext", *(names * 3277)[:65536 + 2 + c.index])
    c.note((n, o), n > 2)

FAMILIES = {"two": (two, 1000, 15000), "three": (three, 900, 12000), "more": (more, 250, 3000), "tiny": (tiny, 1500, 30000),
            "repeated": (repeated, 400, 5000), "empty": (empty, 200, 1500), "medium": (medium, 40, 400), "large": (large, 8, 60), "runs": (runs, 48, 300), "regions": (regions, 8, 80), "refuse": (refuse, 12, 24)}
BIG = ("large", "runs", "regions")
VARIANTS = ("asan", "plain")
MIN_NONTRIVIAL = 500
