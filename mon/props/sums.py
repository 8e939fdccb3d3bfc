"""Shared by accsum, wordaccsum and editopsum: exact sums, order and grouping."""
from props.common import *
import copy, os

class Kind:
    """tool, generator of reports, parser, and a maker of genuine reports."""
    def __init__(s, tool, make, parse, genuine): s.tool, s.make, s.parse, s.genuine = tool, make, parse, genuine

def total(rs):
    t = copy.deepcopy(rs[0])
    for r in rs[1:]: t.add(r)
    return t

def judge(c, K, rs, datas, how):
    r = c.rng
    names = [c.w("r%d" % i, d) for i, d in enumerate(datas)]
    want = total(rs).text()
    got = c.run(K.tool, *names).out
    c.same(got, want, "sum of %d reports" % len(rs))
    if how == "order":
        p = list(names); r.shuffle(p)
        c.same(c.run(K.tool, *p).out, got, "sum in another order")
        if len(names) > 2:
            k = r.randint(2, len(names) - 1)
            c.w("s", c.run(K.tool, *p[:k]).out)
            rest = ["s"] + p[k:]; r.shuffle(rest)
            c.same(c.run(K.tool, *rest).out, got, "sum of a sum")
            if len(rest) > 2:
                c.w("t", c.run(K.tool, *rest[1:]).out)
                c.same(c.run(K.tool, "t", rest[0]).out, got, "sum of sums")
    c.count("reports summed", len(rs)); c.count("groupings compared", 3 if how == "order" else 1)
    return want

def random_case(K):
    def f(c):
        g = gen.Gen(c.rng); r = c.rng
        rs = [K.make(g, r.random() < 0.4) for _ in range(r.choice([2, 2, 3, 4, 7]))]
        if r.random() < 0.3: rs.append(copy.deepcopy(rs[0]))
        w = judge(c, K, rs, [x.text() for x in rs], "order")
        c.note(w, len(rs) > 1 and len(w) > 700, sample=[x.text().decode(errors="replace")[:600] for x in rs[:2]])
    return f
def genuine_case(K):
    def f(c):
        g = gen.Gen(c.rng); r = c.rng
        datas = [K.genuine(c, g, i) for i in range(r.choice([2, 3, 5]))]
        rs = [K.parse(d) for d in datas]
        for d, x in zip(datas, rs): c.same(d, x.text(), "report of a single page")
        w = judge(c, K, rs, datas, "order")
        c.note(w, len(w) > 700, sample=[d.decode(errors="replace")[:600] for d in datas[:2]])
    return f
def many_case(K, n):
    def f(c):
        g = gen.Gen(c.rng); r = c.rng
        base = [K.make(g, False) for _ in range(20)]
        k = n[c.index % len(n)]
        rs = [base[r.randrange(20)] for _ in range(k)]
        names = [c.w("b%d" % i, x.text()) for i, x in enumerate(base)]
        want = total(rs).text()
        c.same(c.run(K.tool, *["b%d" % next(j for j in range(20) if base[j] is x) for x in rs]).out, want, "sum of %d reports" % k)
        c.count("reports summed", k); c.note((k, want), True)
    return f
def refuse_case(K):
    def f(c):
        g = gen.Gen(c.rng)
        c.w("x", K.make(g, False).text()); c.w("y", b"not a report\n")
        c.expect_error(K.tool, "x")
        c.expect_error(K.tool, "x", "missing"); c.expect_error(K.tool, "x", "y"); c.expect_error(K.tool, "y", "x")
        c.note("refuse", False)
    return f
