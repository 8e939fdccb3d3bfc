"""editopcost."""
import os
from props.common import *
RULE = ("a case is one or two edit operation reports (written by the reference writer or by editop); all 101 lines are compared with the "
        "defining sum over moves; non-trivial if a report lists at least two move lengths")
def expect(e, f=None):
    o = []
    for t in range(101):
        o.append("%3d %10d\n" % (t, e.cost(t) - (f.cost(t) if f else 0)))
    return "".join(o).encode()
def judge(c, e, f=None, ed=None, fd=None):
    c.w("e", ed or e.text())
    if f is not None: c.w("f", fd or f.text())
    got = c.run("editopcost", "e", *(["f"] if f is not None else [])).out
    c.same(got, expect(e, f), "costs")
    c.count("thresholds checked", 101); c.count("move lengths", len(e.moves))
    c.note((e.text(), f.text() if f else None), len(e.moves) > 1, sample=[e.text().decode()] + ([f.text().decode()] if f else []))
def one(c): judge(c, gen.Gen(c.rng).edo(c.rng.random() < 0.6))
def two(c):
    g = gen.Gen(c.rng)
    judge(c, g.edo(c.rng.random() < 0.5), g.edo(c.rng.random() < 0.5))
def twice(c):
    """One report against itself, under one or two names."""
    g = gen.Gen(c.rng); e = g.edo(c.rng.random() < 0.5); c.w("e", e.text()); c.w("copy", e.text())
    k = c.index % 3
    os.link(os.path.join(c.dir, "e"), os.path.join(c.dir, "link"))
    got = c.run("editopcost", "e", ["e", "copy", "link"][k]).out
    c.same(got, expect(e, e), "costs of a report against itself"); c.note((e.text(), k), len(e.moves) > 1)
def full(c):
    """All or single lengths."""
    r = c.rng
    e = model.Edo(r.randint(0, 100), r.randint(0, 100))
    k = c.index
    if k < 100: e.moves = {k + 1: r.randint(1, 9)}
    else: e.moves = {i: r.randint(1, 10 ** r.randint(1, 9)) for i in range(1, 101) if r.random() < 0.9}
    judge(c, e, model.Edo(3, 4, {100: 2, 1: 5}) if r.random() < 0.3 else None)
def real(c):
    g = gen.Gen(c.rng); r = c.rng
    es = []
    for i in range(2):
        x, y, a = g.pair(); y = g.mutate(y, a, rate=0, moves=3)
        c.w("a", g.plain(x)); c.w("b", g.plain(y))
        if r.random() < 0.5: c.run("editop", "a", "b", "r%d" % i); d = c.r("r%d" % i)
        else: d = c.run("editop", "a", "b").out
        es.append((model.parse_edo(d), d))
    judge(c, es[0][0], es[1][0], es[0][1], es[1][1])
def refuse(c):
    c.w("e", model.Edo(1, 2, {3: 4}).text()); 
    c.expect_error("editopcost", "e", "e", "e")
    c.expect_error("editopcost", "e", "missing")
    c.note("refuse", False)
FAMILIES = {"one": (one, 800, 12000), "two": (two, 800, 12000), "twice": (twice, 60, 600), "full": (full, 140, 1000), "real": (real, 200, 2500), "refuse": (refuse, 1, 1)}
MIN_NONTRIVIAL = 500
