"""accsum."""
from props.sums import *
RULE = ("a case is 2..500 accuracy reports, generated by a reference writer with arbitrary contents (huge counts, all characters, "
        "confusions of braces, brackets and marks) or made by accuracy; their sum is compared byte for byte with the reference sum, in another "
        "order and grouped; non-trivial if the sum is longer than an empty report")
def genuine(c, g, i):
    x, y, a = g.pair()
    c.w("x", g.plain(x)); c.w("y", g.marked(y))
    return c.run("accuracy", "x", "y").out
K = Kind("accsum", lambda g, big: g.acc(big), model.parse_acc, genuine)
def manyconf(c):
    """Thousands of distinct confusions and characters."""
    g = gen.Gen(c.rng); r = c.rng
    rs = []
    for i in range(3):
        a = model.Acc()
        for j in range([600, 1500, 12000 if i == 0 else 3000, 1500, 600, 70000 if i == 0 else 9000][c.index % 6]):
            k = "{%s}-{%s}" % (model.conf_side([(r.choice(gen.LATIN), 0) for _ in range(r.randint(0, 2))]), model.conf_side([(r.choice(gen.CYR), 0) for _ in range(r.randint(0, 2 if c.index % 6 < 5 else 4))]))
            a.add_conf(k, 1, r.randint(0, 1)); a.errors += 1; a.unmarked[1] += 1; a.unmarked[3] += 1; a.total[1] += 1; a.total[3] += 1
            cp = r.choice(gen.CJK + gen.CYR + gen.LATIN + gen.HANGUL); a.add_char(cp, 2, 1); a.characters += 2
        rs.append(a)
    w = judge(c, K, rs, [x.text() for x in rs], "order")
    c.note(w, True)
def allchars(c):
    """Every character of a range, in two reports."""
    lo = c.index * 0x1100
    cs = [p for p in range(lo, lo + 0x1100) if gen.valid(p) and p != WILD]
    rs = []
    for k in (3, 5):
        a = model.Acc()
        for p in cs:
            if p % k: a.add_char(p, k + p % 7, p % k)
        a.characters = sum(v[0] for v in a.chars.values()); rs.append(a)
    w = judge(c, K, rs, [x.text() for x in rs], "")
    c.count("characters summed", len(cs)); c.note(w, True)
FAMILIES = {"random": (random_case(K), 700, 8000), "genuine": (genuine_case(K), 150, 2000), "manyconf": (manyconf, 6, 60), "many": (many_case(K, [60, 500, 257, 1300]), 4, 12),
            "allchars": (allchars, 256, 256, "fixed"), "refuse": (refuse_case(K), 1, 1)}
BIG = ("manyconf", "many")
MIN_NONTRIVIAL = 300
