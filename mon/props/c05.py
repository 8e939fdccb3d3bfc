"""synctext -T."""
from props.common import *
RULE = ("a case is a pair of texts with moved, copied and edited blocks, run through synctext -T; the block lists of both texts are parsed, "
        "the texts rebuilt, and greedy longest-first choice is checked by removing blocks in order of length; non-trivial if at least "
        "two blocks are shown and they are not all in the same order")

def blocks(items, name):
    """[(number, cps, start)] of one side and its whole text."""
    pos, out, txt = 0, [], []
    for n, v in items:
        if n is not None:
            if not v: raise Bad("empty block %d in the %s text" % (n, name))
            out.append((n, v, pos))
        txt += v; pos += len(v)
    return out, txt

def stretches(txt, bl, keep):
    """Maximal runs of the text outside the blocks for which keep is true."""
    res, pos = [], 0
    for n, v, s in bl:
        if keep(v):
            res.append(txt[pos:s]); pos = s + len(v)
    res.append(txt[pos:])
    return [x for x in res if x]

def check(c, out, x, y, full=True):
    p = model.parse_transposed(out)
    b1, t1 = blocks(p[0], "first"); b2, t2 = blocks(p[1], "second")
    if t1 != x or t2 != y: c.fail("a text is not shown completely", "lossy")
    k = len(b1)
    if [n for n, _, _ in b1] != list(range(1, k + 1)): c.fail("blocks of the first text are numbered %r" % [n for n, _, _ in b1][:20], "numbers")
    if sorted(n for n, _, _ in b2) != list(range(1, k + 1)): c.fail("block numbers of the second text are wrong", "numbers")
    d2 = {n: v for n, v, _ in b2}
    for n, v, _ in b1:
        if d2[n] != v: c.fail("block %d differs between the texts" % n, "block-differs")
        if WILD in v: c.fail("block %d holds a reject character" % n, "reject-matched")
    u1, u2 = stretches(x, b1, lambda v: True), stretches(y, b2, lambda v: True)
    common = (set().union(*map(set, u1)) if u1 else set()) & (set().union(*map(set, u2)) if u2 else set())
    if common - {WILD}: c.fail("character U+%04X is left unmatched in both texts" % min(common - {WILD}), "unmatched")
    if full:
        for L in sorted({len(v) for _, v, _ in b1}, reverse=True):
            r1, r2 = stretches(x, b1, lambda v: len(v) > L), stretches(y, b2, lambda v: len(v) > L)
            best = longest(r1, r2)
            if best != L: c.fail("a block of length %d was chosen where the longest common run has length %d" % (L, best), "not-longest")
            c.count("greedy steps checked")
    return b1, b2

def longest(r1, r2):
    """Longest common run over all pairs of stretches; separators never match."""
    return model.lcstr_len(join(r1), join(r2))
def join(rs):
    out = []
    for r in rs: out += r; out.append(WILD)
    return out

def judge(c, xb, yb, opts=(), full=True):
    c.w("a", xb); c.w("b", yb)
    args = ["a", "b"]
    for o in ("-T",) + tuple(opts): args.insert(c.rng.randint(0, len(args)), o)
    out = c.run("synctext", *args).out
    low = "-i" in opts
    x, y = text(xb, lower=low), text(yb, lower=low)
    if "-s" in opts:
        o = out.decode()
        m = [q for t in (x, y) for _, q in t]
        if o.count("^") != sum(m): c.fail("%d markers shown, %d in the texts" % (o.count("^"), sum(m)), "markers")
        out = o.replace("^", "").encode()
    b1, b2 = check(c, out, cps(x), cps(y), full)
    order = [n for n, _, _ in b2]
    c.count("blocks", len(b1)); c.count("pairs with blocks out of order", order != sorted(order))
    c.note((xb, yb, opts) if len(xb) < 4000 else c.index, len(b1) > 1 and order != sorted(order), sample=[list(opts), xb.decode(errors="replace"), yb.decode(errors="replace")] if len(xb) < 60 else None)

def small(c):
    g = gen.Gen(c.rng); r = c.rng
    x, y, a = g.pair(sync_safe=True)
    if r.random() < 0.5: y = g.mutate(y, a, rate=0, moves=r.randint(1, 5))
    o = r.choice([(), (), (), ("-i",), ("-s",)])
    judge(c, (g.marked if o == ("-s",) else g.plain)(x), (g.marked if o == ("-s",) else g.plain)(y), o)
def tiny(c):
    g = gen.Gen(c.rng); r = c.rng
    a = list(map(ord, r.choice(["ab", "abc", "ab~", "abcd", "ab\n"])))
    judge(c, g.plain([r.choice(a) for _ in range(r.randint(0, 11))]), g.plain([r.choice(a) for _ in range(r.randint(0, 11))]))
def repeated(c):
    """The same motifs repeated over and over: long common runs that overlap each other."""
    g = gen.Gen(c.rng); r = c.rng
    a = g.alphabet(sync_safe=True) if r.random() < 0.3 else list(map(ord, "abcdefghij"))
    x, y = g.repeats(2, a)
    judge(c, g.plain(x), g.plain(y))
def shuffled(c):
    """Blocks of various lengths in another order."""
    g = gen.Gen(c.rng); r = c.rng
    a = gen.LATIN[:r.choice([3, 10, 40])] + [32]
    bl = [g.seq(r.choice([1, 2, 5, 12, 30, 99, 100, 101, 130]), a) for _ in range(r.randint(2, 9))]
    y = list(bl); r.shuffle(y)
    y = [b for b in y if r.random() < 0.9]
    sep = r.choice([[], [10], [WILD]])
    f = lambda z: sum((b + sep for b in z), [])
    judge(c, g.plain(f(bl)), g.plain(g.mutate(f(y), a, rate=r.choice([0, 0.01]), moves=0)))
def steps(c):
    """Blocks of nearly the same length in another order, so that the next one to be taken is as long as, or one shorter than, the last."""
    g = gen.Gen(c.rng); r = c.rng
    base, spread, n = r.choice([2, 5, 10, 21, 25, 40, 64, 100]), r.choice([0, 1, 1, 2, 3]), r.randint(3, 25)
    a = gen.LATIN[:26] + [32]
    bl = [g.seq(base + r.randint(0, spread), a) for _ in range(n)]
    x, y = list(bl), list(bl)
    r.shuffle(x); r.shuffle(y)
    sep = [[c_] for c_ in r.choice([(WILD, WILD), (0x31, 0x32), (10, 0x33)])]
    f = lambda z, s: sum((b + s * r.choice([1, 1, 2]) for b in z), [])
    if c.index % 2:
        # blocks that compete for the same stretch: which of them is taken first shows
        whole = g.seq(max(base + spread + 1, (base + 2) * n // r.choice([2, 2, 3, 4])), a)
        x = []
        for b in bl:
            i = r.randint(0, len(whole) - len(b)); x.append(whole[i:i + len(b)])
        x, y = f(x, sep[0]), whole
        if r.random() < 0.5: x, y = y, x
        judge(c, g.plain(x), g.plain(y)); return
    judge(c, g.plain(f(x, sep[0])), g.plain(f(y, sep[1])))
def medium(c):
    g = gen.Gen(c.rng); r = c.rng
    a = gen.LATIN[:26] + [32, 10]
    x = g.seq(r.randint(200, 600), a)
    judge(c, g.plain(x), g.plain(g.mutate(x, a, rate=0.05, moves=3)))
def large(c):
    g = gen.Gen(c.rng); r = c.rng
    x = long_text(g, [3000, 4096, 5000, 8000][c.index % 4])
    y = few_edits(g, x, 15, gen.LATIN[:26])
    i = r.randrange(len(y)); y = y[i:] + y[:i]
    judge(c, g.plain(x), g.plain(y), full=False)
def huge(c):
    """Blocks of tens of thousands of characters, all different, in another order."""
    r = c.rng
    n = [32767, 32768, 32769, 65535, 65536, 65537, 80000, 90000][c.index % 8]
    k = [1, 2, 3, 5][(c.index // 8 + c.index) % 4]
    cuts = sorted(r.sample(range(1, 3000), k - 1)) if r.random() < 0.5 else sorted(r.sample(range(1, n), k - 1))
    if r.random() < 0.5: cuts = sorted(n - q for q in cuts)
    all_ = list(range(0x20000, 0x20000 + n))
    bl = [all_[i:j] for i, j in zip([0] + cuts, cuts + [n])]
    left, right = list(bl), list(bl); r.shuffle(left); r.shuffle(right)
    # what stands between two blocks is nowhere else, so that no two of them run together
    x, y = [], []
    for i, b in enumerate(left): x += [0x41] * r.choice([1, 1, 40]) + b
    for i, b in enumerate(right): y += [0x42] * r.choice([1, 1, 70]) + b
    c.w("a", "".join(map(chr, x)).encode()); c.w("b", "".join(map(chr, y)).encode())
    b1, b2 = check(c, c.run("synctext", "-T", "a", "b", variant="plain").out, x, y, full=False)
    if sorted(v for _, v, _ in b1) != sorted(bl): c.fail("blocks of lengths %r are due, lengths %r are shown" % (sorted(map(len, bl)), sorted(len(v) for _, v, _ in b1)), "not-longest")
    c.count("characters of huge blocks", n); c.note(("huge", n, c.index), True)
def regions(c):
    """Hundreds to thousands of blocks in another order."""
    r = c.rng
    n = [257, 520, 1030, 300, 700, 1100][c.index % 6]
    order = [list(range(n)), list(range(n))]
    k = c.index // 6 % 3
    if k == 0: r.shuffle(order[1])
    elif k == 1: order[1].reverse()
    else: i = r.randrange(n); order[1] = order[1][i:] + order[1][:i]
    runs, (x, y) = many_runs(r, n, 2, order)
    c.w("a", "".join(map(chr, x)).encode()); c.w("b", "".join(map(chr, y)).encode())
    b1, b2 = check(c, c.run("synctext", "-T", "a", "b", variant="plain").out, x, y, full=False)
    if [v for _, v, _ in b1] != runs: c.fail("%d blocks are shown, %d are due" % (len(b1), n), "not-longest")
    c.count("blocks, many of them", n); c.note(("regions", n, c.index), True)
def refuse(c):
    for n in (0, 1, 3, 17): c.expect_error("synctext", "-T", *[c.w("t%d" % i, b"abc") for i in range(n)])
    c.note("refuse", False)

FAMILIES = {"repeated": (repeated, 300, 4000), "small": (small, 1300, 20000), "tiny": (tiny, 1500, 25000), "shuffled": (shuffled, 300, 3000), "steps": (steps, 300, 3000), "medium": (medium, 50, 400),
            "large": (large, 4, 32), "huge": (huge, 8, 64), "regions": (regions, 6, 60), "refuse": (refuse, 1, 1)}
BIG = ("large", "huge", "regions")
VARIANTS = ("asan", "plain")
MIN_NONTRIVIAL = 400
