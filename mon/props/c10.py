"""editopsum."""
from props.sums import *
RULE = ("a case is 2..500 edit operation reports, generated by a reference writer or made by editop; their sum is compared byte for byte with "
        "the reference sum, in another order and grouped; non-trivial if the sum has moves")
def genuine(c, g, i):
    x, y, a = g.pair()
    c.w("x", g.plain(x)); c.w("y", g.plain(g.mutate(y, a, rate=0, moves=3)))
    return c.run("editop", "x", "y").out
K = Kind("editopsum", lambda g, big: g.edo(big), model.parse_edo, genuine)
def small(c):
    g = gen.Gen(c.rng); r = c.rng
    rs = [g.edo(r.random() < 0.4) for _ in range(r.choice([2, 2, 3, 5, 8]))]
    w = judge(c, K, rs, [x.text() for x in rs], "order")
    c.note(w, b"Length" in w, sample=[x.text().decode() for x in rs[:2]])
def each(c):
    """Every move length."""
    r = c.rng
    k = c.index + 1
    rs = [model.Edo(r.randint(0, 9), r.randint(0, 9), {k: r.randint(1, 10**9)}), model.Edo(0, 0, {k: 3, r.randint(1, 100): 2}), model.Edo(1, 0)]
    c.note(judge(c, K, rs, [x.text() for x in rs], "order"), True)
FAMILIES = {"random": (small, 1500, 15000), "genuine": (genuine_case(K), 250, 2500), "each": (each, 100, 100, "fixed"),
            "many": (many_case(K, [60, 500, 257, 2000]), 4, 12), "refuse": (refuse_case(K), 1, 1)}
MIN_NONTRIVIAL = 300
