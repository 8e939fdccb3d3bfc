"""accdist and wordaccdist."""
from props.common import *
from props.c12 import report
RULE = ("a case is 1..2000 reports of given counts for accdist or wordaccdist; all 101 lines are compared with the definition; non-trivial if at "
        "least two different values are printed")
TOOL = {"acc": "accdist", "wac": "wordaccdist"}
def expect(obs):
    tot = sum(n for n, _ in obs)
    if tot == 0: return b""
    o = []
    for x in range(101):
        w = sum(n for n, m in obs if 100 * (n - m) >= x * n)       # exact
        o.append("%3d %6.2f\n" % (x, 100.0 * w / tot))
    return "".join(o).encode()
def judge(c, kind, obs):
    uniq = {}
    for o in obs:
        if o not in uniq: uniq[o] = c.w("r%d" % len(uniq), report(kind, *o))
    got = c.run(TOOL[kind], *[uniq[o] for o in obs]).out
    want = expect(obs)
    # a report whose exact accuracy is an integer may not be representable: there the double decides
    if got != want and got != model.dist_text(obs): c.same(got, want, "distribution of %r" % (obs[:12],))
    vals = {l[4:] for l in want.split(b"\n") if l}
    c.count("reports", len(obs)); c.count("steps", max(0, len(vals) - 1)); c.count("empty reports", sum(n == 0 for n, _ in obs))
    c.note((kind, obs), len(vals) > 1, sample=[kind, obs[:20]])
def some(c):
    r = c.rng; g = gen.Gen(r)
    kind = r.choice(["acc", "wac"])
    def one():
        if r.random() < 0.1: return (0, 0)
        n = max(1, r.choice([r.randint(1, 20), r.randint(1, 3000), g.num(10**8), r.choice([2**31, 2**32, 2**33, 2**32 + 1, 3 * 2**31, 10**11])]))
        k = r.random()
        m = r.randint(0, n) if k < 0.4 else min(n, int(n * 0.1 * r.random())) if k < 0.7 else 0 if k < 0.8 else n if k < 0.9 or kind == "wac" else r.randint(n, 3 * n)
        return (n, m)
    judge(c, kind, [one() for _ in range(r.choice([1, 1, 2, 3, 8, 40]))])
def exact(c):
    """Accuracies of exactly x%, and just above and below."""
    kind = ["acc", "wac"][c.index % 2]
    x = c.index // 2 % 101
    obs = []
    for n in (100, 1000, 100000, 300, 700, 4, 20, 50):
        if n * (100 - x) % 100 == 0:
            m = n * (100 - x) // 100
            obs += [(n, m)] + ([(n, m - 1)] if m else []) + ([(n, m + 1)] if m < n else [])
    judge(c, kind, obs)
    # the same among very large counts, where single precision does not tell them apart
    obs = []
    for n in (10**8, 4 * 10**9, 10**11, 99999900):
        m = n * (100 - x) // 100
        obs += [(n, m)] + ([(n, m - 1)] if m else []) + ([(n, m + 1)] if m < n else [])
    judge(c, kind, obs)
def edge(c):
    for kind in TOOL:
        for obs in ([(0, 0)], [(0, 0)] * 3, [(1, 0)], [(1, 1)], [(0, 0), (7, 3), (0, 0)], [(5, 5), (5, 0)]): judge(c, kind, obs)
        c.w("bad", b"junk\n"); c.w("ok", report(kind, 5, 1))
        c.expect_error(TOOL[kind], "ok", "bad"); c.expect_error(TOOL[kind], "ok", "missing")
    judge(c, "acc", [(5, 10), (10, 10)]); judge(c, "acc", [(5, 6)])
    judge(c, "acc", [(0, 3), (10, 1)])
    judge(c, "acc", [(0, 3)])
def many(c):
    r = c.rng
    judge(c, ["acc", "wac"][c.index % 2], [(r.randint(0, 9), 0) if r.random() < 0.3 else (10, r.randint(0, 10)) for _ in range(2000)])
def genuine(c):
    g = gen.Gen(c.rng); r = c.rng
    kind = r.choice(["acc", "wac"]); obs = []
    for i in range(r.randint(1, 6)):
        ws = g.words(r.randint(0, 30), g.vocab(9, 140))
        c.w("x", g.join(ws)); c.w("y", g.join(g.mutate_words(ws, g.vocab(3, 140), rate=r.choice([0, 0.1, 0.5]))))
        o = c.run("accuracy" if kind == "acc" else "wordacc", "x", "y").out
        h = acc_head(o) if kind == "acc" else wac_head(o)
        obs.append((h[0], h[1])); c.w("q%d" % i, o)
    got = c.run(TOOL[kind], *["q%d" % i for i in range(len(obs))]).out
    if got not in (expect(obs), model.dist_text(obs)): c.same(got, expect(obs), "distribution of %r" % obs)
    c.note((kind, obs), len(set(got.split())) > 103)
FAMILIES = {"some": (some, 1400, 15000), "exact": (exact, 202, 202, "fixed"), "edge": (edge, 1, 1), "many": (many, 6, 40), "genuine": (genuine, 150, 1500)}
MIN_NONTRIVIAL = 300
