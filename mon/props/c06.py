"""editop against synctext -T."""
from props.common import *
from props.c05 import blocks
RULE = ("a case is a pair of texts, run through synctext -T and editop; insertions, deletions and the set of possible move lists (all ties "
        "searched) are derived from the displayed blocks; non-trivial if there is at least one move")

def judge(c, xb, yb, out=False):
    c.w("a", xb); c.w("b", yb)
    p = model.parse_transposed(c.run("synctext", "-T", "a", "b").out)
    b1, x = blocks(p[0], "first"); b2, y = blocks(p[1], "second")
    if x != cps(text(xb)) or y != cps(text(yb)): raise Bad("synctext -T does not show the texts")
    r = c.run("editop", "a", "b", *(["rep"] if out else []))
    data = c.r("rep") if out else r.out
    e = model.parse_edo(data)
    c.same(data, e.text(), "layout of the report")
    ins = sum(1 for n, v in p[0] if n is None for k in v if k != WILD)
    dele = sum(len(v) for n, v in p[1] if n is None)
    if e.ins != ins: c.fail("Insertions %d, synctext -T leaves %d correct characters unmatched" % (e.ins, ins), "insertions")
    if e.dele != dele: c.fail("Deletions %d, synctext -T leaves %d generated characters unmatched" % (e.dele, dele), "deletions")
    order, lens = [n for n, _, _ in b2], {n: len(v) for n, v, _ in b2}
    poss = model.editop_moves(order, lens)
    got = tuple(sorted(sum(([k] * n for k, n in e.moves.items()), [])))
    if poss is None: c.count("move lists too ambiguous to decide")
    elif got not in poss: c.fail("moves %r, expected %r for the order %r with lengths %r" % (got, sorted(poss)[:3], order[:40], lens if len(lens) < 40 else "..."), "moves")
    else: c.count("move lists decided")
    if poss is None and (order == sorted(order)) != (e.n() == 0): c.fail("moves for an order of %r" % order[:40], "moves")
    c.count("moves", e.n()); c.count("moves of 100 or more", e.moves.get(100, 0)); c.count("insertions", ins); c.count("deletions", dele)
    c.note((xb, yb) if len(xb) < 4000 else c.index, e.n() > 0, sample=[xb.decode(errors="replace"), yb.decode(errors="replace"), list(got)] if len(xb) < 60 else None)

def small(c):
    g = gen.Gen(c.rng); r = c.rng
    x, y, a = g.pair(sync_safe=True)
    if r.random() < 0.6: y = g.mutate(y, a, rate=0, moves=r.randint(1, 5))
    judge(c, g.plain(x), g.plain(y), r.random() < 0.1)
def tiny(c):
    g = gen.Gen(c.rng); r = c.rng
    a = list(map(ord, r.choice(["ab", "abc", "ab~", "abcd", "abcdefgh", "ab\n"])))
    judge(c, g.plain([r.choice(a) for _ in range(r.randint(0, 11))]), g.plain([r.choice(a) for _ in range(r.randint(0, 11))]))
def repeated(c):
    """The same motifs repeated over and over: long common runs that overlap each other."""
    g = gen.Gen(c.rng); r = c.rng
    a = g.alphabet(sync_safe=True) if r.random() < 0.3 else list(map(ord, "abcdefghij"))
    x, y = g.repeats(2, a)
    judge(c, g.plain(x), g.plain(y))
def perm(c):
    """Distinct characters in another order: every block of length one."""
    g = gen.Gen(c.rng); r = c.rng
    x = r.sample([k for k in gen.LATIN if k not in gen.SYNC_UNSAFE], r.randint(2, 14))
    y = list(x); r.shuffle(y)
    judge(c, g.plain(x), g.plain(y))
def blocks_(c):
    """Distinguishable blocks of given lengths in another order."""
    g = gen.Gen(c.rng); r = c.rng
    k = r.randint(2, 10)
    bl = [[0x4E00 + 200 * i + j for j in range(r.choice([1, 1, 2, 3, 3, 5, 99, 100, 101, 150]))] for i in range(k)]
    y = list(bl)
    if r.random() < 0.5: r.shuffle(y)
    else:
        for _ in range(r.randint(1, 3)): b = y.pop(r.randrange(k)); y.insert(r.randrange(k), b)
    junk = lambda: [0x41 + r.randint(0, 5) for _ in range(r.choice([0, 0, 1, 4]))]
    junk2 = lambda: [r.choice([0x61, 0x62, WILD]) for _ in range(r.choice([0, 0, 1, 4]))]
    judge(c, g.plain(sum((junk() + b for b in bl), [])), g.plain(sum((junk2() + b for b in y), [])))
def wild(c):
    g = gen.Gen(c.rng); r = c.rng
    a = g.alphabet(sync_safe=True, wild=1.0)
    x = g.seq(g.size(), a)
    judge(c, g.marked(x), g.marked(g.mutate(x, a, moves=r.randint(0, 3))))
def longblk(c):
    """Blocks of thousands of characters, all moved."""
    g = gen.Gen(c.rng); r = c.rng
    lens = [[40000, 30], [33000, 32800], [150, 66000], [3000, 2000, 1000], [100, 101, 99, 250]][c.index % 5]
    bl = [[0x4E00 + 20000 * (i % 1) + (j * (i + 3) + i * 7) % 20000 for j in range(n)] for i, n in enumerate(lens)]
    if max(lens) > 20000:
        bl = [[0x4E00 + j % 20000 if i == 0 else 0xAC00 + j % 11000 for j in range(n)] for i, n in enumerate(lens)]
        if lens[0] > 20000: bl[0] = list(range(0x4E00, 0x9F00)) + list(range(0x20000, 0x20000 + lens[0] - (0x9F00 - 0x4E00)))
        bl[1] = (list(range(0xAC00, 0xD700)) + list(range(0x30000, 0x30000 + 60000)))[:lens[1]]
    y = bl[1:] + bl[:1]
    c.w("a", g.plain(sum(bl, []))); c.w("b", g.plain(sum(y, [])))
    e = model.parse_edo(c.run("editop", "a", "b", variant="plain").out)
    if len(bl) == 2:
        want = {min(100, min(lens)): 1}
        if (e.ins, e.dele, e.moves) != (0, 0, want): c.fail("two blocks of lengths %r exchanged: %r" % (lens, (e.ins, e.dele, e.moves)), "moves")
    elif e.ins + e.dele == 0 and len(set(map(len, bl))) == len(bl): c.count("rotations")
    c.count("moves", e.n()); c.note(("long", lens), e.n() > 0)
def manyblk(c):
    """Up to 900 blocks, in threes of which two are exchanged: the moves are known."""
    g = gen.Gen(c.rng); r = c.rng
    n = [30, 42, 43, 44, 64, 85, 86, 100, 170, 200, 300][c.index % 11]
    bl = distinct_blocks([r.choice([1, 1, 2, 3, 5]) for _ in range(3 * n + 1)])
    order, want = [0], {}
    for i in range(n):
        p, q, s = 3 * i + 1, 3 * i + 2, 3 * i + 3
        if r.random() < 0.95 or i == n - 1: order += [q, p, s]; k = min(len(bl[p]), len(bl[q])); want[k] = want.get(k, 0) + 1
        else: order += [p, q, s]
    x = sum((b + [0x41 + i % 3] for i, b in enumerate(bl)), [])
    y = sum((bl[j] + [0x61 + k % 3] for k, j in enumerate(order)), [])
    c.w("a", g.plain(x)); c.w("b", g.plain(y))
    e = model.parse_edo(c.run("editop", "a", "b", variant="plain").out)
    if (e.ins, e.dele, dict(e.moves)) != (len(bl), len(bl), want): c.fail("%d blocks, of which pairs are exchanged: insertions, deletions, moves %r, expected %r" % (len(bl), (e.ins, e.dele, dict(e.moves)), (len(bl), len(bl), want)), "moves")
    c.count("moves", e.n()); c.note(("manyblk", order), e.n() > 0)
def scattered(c):
    """More than a hundred blocks in any order, most of them of a length of their own: the moves are (nearly) determined."""
    g = gen.Gen(c.rng); r = c.rng
    n = [130, 140, 60, 135, 100, 200 if c.tier == "thorough" else 150][c.index % 6]
    lens = r.sample(range(1, n + 10), n)
    bl = distinct_blocks(lens)
    order = list(range(n)); r.shuffle(order)
    c.w("a", g.plain(sum(bl, []))); c.w("b", g.plain(sum([bl[i] for i in order], [])))
    e = model.parse_edo(c.run("editop", "a", "b", variant="plain", cpu=200).out)
    poss = model.editop_moves([i + 1 for i in order], {i + 1: k for i, k in enumerate(lens)})
    got = tuple(sorted(sum(([k] * m for k, m in e.moves.items()), [])))
    if (e.ins, e.dele) != (0, 0): c.fail("%d insertions, %d deletions where blocks are only moved" % (e.ins, e.dele), "insertions")
    if poss is not None:
        c.count("move lists decided")
        if got not in poss: c.fail("%d blocks in another order: moves %r, expected %r" % (n, got, sorted(poss)[:1]), "moves")
    c.count("moves", e.n()); c.note(("scattered", order), e.n() > 0)
def refuse(c):
    c.w("a", b"abc"); c.w("b", b"abd")
    for args in ((), ("-D",), ("a",), ("a", "b", "c", "d")):
        if args: c.expect_error("editop", *args)
    c.note("refuse", False)

VARIANTS = ("asan", "plain")
FAMILIES = {"repeated": (repeated, 300, 4000), "small": (small, 1200, 20000), "tiny": (tiny, 1300, 25000), "perm": (perm, 500, 8000), "blocks": (blocks_, 350, 5000),
            "wild": (wild, 250, 4000), "longblk": (longblk, 5, 5), "scattered": (scattered, 12, 60), "manyblk": (manyblk, 44, 220), "refuse": (refuse, 1, 1)}
BIG = ("longblk", "scattered", "manyblk")
MIN_NONTRIVIAL = 600
