"""groupacc."""
from props.common import *
RULE = ("a case is an accuracy report (reference writer, accuracy or accsum) and a group file of characters in the report or not, "
        "with blanks, newlines, markers and repetitions; the whole output is compared with the one computed from the report; "
        "non-trivial if at least two lines are listed and the group leaves some character out")
def expect(a, group):
    o = ["   Count   Missed   %Right"]
    tc = tm = n = 0
    for p in group:
        e = a.chars.get(p)
        if not e or e[0] == 0 or p in (32, 10): continue
        o.append("%8d %8d %s   {%s}" % (e[0], e[1], model.pct(e[0] - e[1], e[0]), u8.render(p, fake=True)))
        tc += e[0]; tm += e[1]; n += 1
    o.append("%8d %8d %s   Total" % (tc, tm, model.pct(tc - tm, tc)))
    return ("\n".join(o) + "\n").encode(), n
def judge(c, a, data, gb, out=False):
    c.w("g", gb); c.w("r", data)
    r = c.run("groupacc", "g", "r", *(["o"] if out else []))
    group = cps(text(gb, header=False))
    want, n = expect(a, group)
    c.same(c.r("o") if out else r.out, want, "group accuracy")
    c.count("lines", n); c.count("characters not in the group", len([p for p in a.chars if p not in group]))
    c.note((data, gb), n > 1 and any(p not in group for p in a.chars), sample=[gb.decode(errors="replace"), data.decode(errors="replace")[-600:]])
def group_for(c, a):
    r = c.rng
    ks = sorted(a.chars)
    out = r.sample(ks, r.randint(0, len(ks))) if ks else []
    out += [r.choice(gen.LATIN + [0x301, 0x4E00, 32, 10, 10, 0x20, 0x3000, 126, 0, 0x10FFFF, 0x25CC]) for _ in range(r.randint(0, 12))]
    r.shuffle(out)
    return [p for p in out if p != 94 and gen.valid(p)]
def synth(c):
    g = gen.Gen(c.rng)
    a = g.acc(c.rng.random() < 0.5)
    if c.rng.random() < 0.15: a.add_char(126, 9, 4); a.characters += 9
    grp = group_for(c, a)
    judge(c, a, a.text(), (g.header() if c.rng.random() < 0.05 else b"") + (g.marked(grp) if c.rng.random() < 0.2 else g.plain(grp)), c.rng.random() < 0.1)
def genuine(c):
    g = gen.Gen(c.rng); r = c.rng
    rs = []
    for i in range(2):
        x, y, al = g.pair(); c.w("x", g.plain(x)); c.w("y", g.marked(y))
        c.run("accuracy", "x", "y", "p%d" % i); rs.append(c.r("p%d" % i))
    if r.random() < 0.5: d = rs[0]
    else: d = c.run("accsum", "p0", "p1").out
    a = model.parse_acc(d)
    judge(c, a, d, g.plain(group_for(c, a)))
def allchars(c):
    """Report and group with every character of a range."""
    r = c.rng
    lo = c.index * 0x1100
    cs = [p for p in range(lo, lo + 0x1100) if gen.valid(p)]
    a = model.Acc()
    for p in cs:
        if p % 5 and p != WILD: a.add_char(p, 3 + p % 11, p % 4)
    a.characters = sum(v[0] for v in a.chars.values())
    grp = [p for p in cs if p not in (94,) and p % 7]
    r.shuffle(grp)
    judge(c, a, a.text(), "".join(map(chr, grp)).encode())
def refuse(c):
    c.w("g", b"abc"); c.w("r", model.Acc().text())
    for a in (["g"], ["g", "r", "o", "p"], ["g", "missing"], ["missing", "r"], ["r", "g"]): c.expect_error("groupacc", *a)
    c.note("refuse", False)
FAMILIES = {"synth": (synth, 1200, 15000), "genuine": (genuine, 300, 3500), "allchars": (allchars, 256, 256, "fixed"), "refuse": (refuse, 1, 1)}
MIN_NONTRIVIAL = 300
