"""accci and wordaccci."""
from props.common import *
RULE = ("a case is 2..70000 reports of given counts for accci or wordaccci; the output is compared with an independent jackknife (tolerance "
        "one unit of the last digit); non-trivial if the reports differ in accuracy")
def report(kind, n, m):
    if kind == "acc":
        a = model.Acc(); a.characters, a.errors = n, m
        if n: a.add_char(97, n, min(n, m))
        if m: a.add_conf("{a}-{b}", m, 0); a.unmarked[1] = a.unmarked[3] = a.total[1] = a.total[3] = m
        return a.text()
    w = model.Wac(); w.total = [n, m]
    if n:
        w._inc(w.non, 3, n, m); w.non_terms[b"abc"] = [n, m]; w._inc(w.distinct, min(n, 11), 1, int(n == m))
        for k in range(1, 9): w._inc(w.phrase, k, max(1, n - k + 1), 0)
    return w.text()
LABEL = {"acc": ("accci", "Characters", "Errors"), "wac": ("wordaccci", "Words", "Misrecognized")}
def run(c, kind, obs, names=None):
    tool, l1, l2 = LABEL[kind]
    uniq = {}
    for o in obs: uniq.setdefault(o, c.w("r%d" % len(uniq), report(kind, *o)) if o not in uniq else None)
    args = [uniq[o] for o in obs]
    if len(obs) < 2 or sum(1 for n, _ in obs if n > 0) < 2:
        c.expect_error(tool, *args); c.count("refused"); return False
    out = c.run(tool, *args).out.decode()
    n, m = sum(o[0] for o in obs), sum(o[1] for o in obs)
    mt = re.fullmatch(r"( *%d   Observations\n *%d   %s\n *%d   %s\n)( *-?[\d.]+)%%  Accuracy\n( *[\d.]+)%%,( *[\d.]+)%%  Approximate 95%% Confidence Interval for Accuracy\n" % (len(obs), n, l1, m, l2), out)
    if not mt: c.fail("unexpected output %r for %d reports, %d, %d" % (out, len(obs), n, m), "format")
    want = "%14d   Observations\n%14d   %s\n%14d   %s\n" % (len(obs), n, l1, m, l2)
    c.same(mt.group(1), want, "counts")
    lo, hi = model.jackknife(obs)
    for got, w, what in ((mt.group(2), 100.0 * (n - m) / n, "accuracy"), (mt.group(3), lo, "lower end"), (mt.group(4), hi, "upper end")):
        if not abs(float(got) - w) <= 0.0051 + abs(w) * 1e-9: c.fail("%s %s, expected %.4f, reports %r" % (what, got.strip(), w, obs[:20]), "interval")
    if len(mt.group(3)) != 6 or len(mt.group(4)) != 6 or len(mt.group(2)) < 14: c.fail("layout of %r" % out, "format")
    if lo > 0 and hi < 100: c.count("intervals inside 0..100")
    elif lo <= 0: c.count("intervals clipped at 0")
    else: c.count("intervals clipped at 100")
    c.count("reports", len(obs))
    return True
def some(c):
    r = c.rng; g = gen.Gen(r)
    kind = r.choice(["acc", "wac"])
    mode = r.random()
    def one():
        k = r.random()
        if k < 0.12: return (0, 0)
        n = max(1, r.choice([r.randint(1, 20), r.randint(1, 3000), g.num(10**7)]))
        if mode < 0.3: m = r.randint(0, n)
        elif mode < 0.6: m = min(n, int(n * 0.05 * r.random()) + r.randint(0, 1))
        elif mode < 0.7: m = n if kind == "wac" else r.randint(0, 2 * n)
        elif mode < 0.8: m = 0
        else: m = min(n, int(n * (0.4 + 0.05 * r.random())))
        return (n, m)
    obs = [one() for _ in range(r.choice([1, 2, 2, 3, 5, 10, 40]))]
    if r.random() < 0.1: obs = [obs[0]] * len(obs)
    ok = run(c, kind, obs)
    c.note((kind, obs), ok and len({m / n for n, m in obs if n}) > 1, sample=[kind, obs])
def few(c):
    kind = ["acc", "wac"][c.index % 2]
    for obs in ([(5, 1)], [(0, 0)], [(0, 0), (0, 0)], [(5, 1), (0, 0)], [(0, 0), (5, 2), (0, 0)], [(5, 0), (5, 0)], [(1, 0), (1, 1)], [(1, 1), (1, 1)], [(3, 1), (0, 0), (4, 1)], [(0, 3), (5, 1)], [(5, 1), (0, 3)], [(0, 3), (0, 0)], [(0, 3), (0, 4)], [(0, 2**32), (2**32, 5)], [(2**32, 5), (2**33, 7)], [(2**31, 5), (2**31, 7)], [(2**32, 5), (7, 3), (3 * 2**32, 0)]):
        run(c, kind, obs)
    t = LABEL[kind][0]
    c.w("bad", b"junk\n"); c.w("ok", report(kind, 5, 1))
    c.expect_error(t, "ok", "bad"); c.expect_error(t, "ok", "missing")
    c.note(("few", kind), False)
def many(c):
    r = c.rng
    kind = ["acc", "wac"][c.index % 2]
    obs = [(r.randint(1, 9), 0) for _ in range([1000, 33000, 3000, 70000][c.index // 2 % 4])]
    obs = [(n, r.choice([0, 0, 1])) for n, _ in obs]
    c.note((kind, "many", c.index), run(c, kind, obs))
def large(c):
    """Counts beyond 32 bits."""
    r = c.rng
    kind = ["acc", "wac"][c.index % 2]
    obs = [(r.randint(10**8, 9 * 10**10), 0) for _ in range(r.randint(2, 6))]
    obs = [(n, int(n * r.random() * 0.3)) for n, _ in obs]
    c.note((kind, obs), run(c, kind, obs))
def genuine(c):
    """Reports that accuracy and wordacc write."""
    g = gen.Gen(c.rng); r = c.rng
    kind = r.choice(["acc", "wac"]); obs = []
    for i in range(r.randint(2, 5)):
        ws = g.words(r.randint(0, 30), g.vocab(9, 140))
        c.w("x", g.join(ws)); c.w("y", g.join(g.mutate_words(ws, g.vocab(3, 140), rate=0.2)))
        o = c.run("accuracy" if kind == "acc" else "wordacc", "x", "y").out
        h = acc_head(o) if kind == "acc" else wac_head(o)
        obs.append((h[0], h[1])); c.w("q%d" % i, o)
    t = LABEL[kind][0]
    if sum(n > 0 for n, _ in obs) < 2: c.expect_error(t, *["q%d" % i for i in range(len(obs))]); c.note(obs, False); return
    out = c.run(t, *["q%d" % i for i in range(len(obs))]).out
    v = re.findall(rb"([\d.]+)%", out.split(b"\n")[4])
    lo, hi = model.jackknife(obs)
    if abs(float(v[0]) - lo) > 0.0051 or abs(float(v[1]) - hi) > 0.0051: c.fail("interval %r, expected %.4f %.4f for %r" % (v, lo, hi, obs), "interval")
    c.note((kind, obs), True, sample=[kind, obs])
FAMILIES = {"some": (some, 1200, 15000), "few": (few, 2, 2), "many": (many, 8, 40), "large": (large, 80, 800), "genuine": (genuine, 150, 1500)}
MIN_NONTRIVIAL = 300
