"""Whole evaluation pipelines."""
from props.common import *
from props.c07 import expect as cost_expect
from props.c06 import judge as editop_judge
from props.c17 import listing
RULE = ("a case is a corpus of 2 to 8 page pairs (or a text and its copies), evaluated page by page and as a whole through several tools; totals, per-character and per-word counts, intervals, distributions, groups, costs, votes and n-grams obtained along different ways are compared; "
        "non-trivial: a corpus with at least one error")
def ngrams(out):
    """{n-gram as displayed: (count, suspects)}, total of the first list."""
    tab = {}
    for l in out.split(b"\n\n\n")[0].split(b"\n")[1:]:
        m = re.fullmatch(rb" *(\d+) +(\d+)   (\{.*\}|Total)", l, re.S)
        if not m: raise Bad("n-gram line %r" % l)
        if m.group(3) == b"Total": return tab, int(m.group(1))
        if m.group(3) in tab: raise Bad("n-gram twice: %r" % m.group(3))
        tab[m.group(3)] = (int(m.group(1)), int(m.group(2)))
    raise Bad("no total")
def corpus(c, g, k, words=False):
    r = c.rng
    al = g.alphabet()
    voc = g.vocab(20, None if words else 140) + ["the", "of", "a"]
    pages = []
    for i in range(k):
        if words or r.random() < 0.5:
            ws = g.words(r.choice([0, 1, 8, 30]), voc); x = g.join(ws).encode()
            vs = ws if r.random() < 0.2 else g.mutate_words(ws, voc)
            y = g.join(vs).encode()
            if r.random() < 0.5: y = g.marked(list(map(ord, y.decode())), 0.1)
        else:
            t = g.seq(r.choice([0, 1, 10, 60]), al); x = g.plain(t)
            y = g.marked(t if r.random() < 0.2 else g.mutate(t, al))
        pages.append((x.replace(b"^", b""), y)); c.w("x%d" % i, pages[-1][0]); c.w("y%d" % i, y)
    return pages
def characters(c):
    """Pages, their sum, the n-grams of the correct texts, groups, intervals and distribution."""
    g = gen.Gen(c.rng); r = c.rng
    k = r.randint(2, 6); pages = corpus(c, g, k)
    reps = []
    for i in range(k):
        if r.random() < 0.5: c.run("accuracy", "x%d" % i, "y%d" % i, "r%d" % i)
        else: c.w("r%d" % i, c.run("accuracy", "x%d" % i, "y%d" % i).out)
        reps.append(model.parse_acc(c.r("r%d" % i)))
    names = ["r%d" % i for i in range(k)]; xs = ["x%d" % i for i in range(k)]; ys = ["y%d" % i for i in range(k)]
    c.w("s", c.run("accsum", *names).out); s = model.parse_acc(c.r("s"))
    want = model.Acc()
    for x in reps: want.add(x)
    if s.text() != want.text(): c.same(s.text(), want.text(), "sum of the pages")
    errs = [model.lev(cps(text(x)), cps(text(y))) - 0 for x, y in pages]
    wild = [sum(p == WILD for p in cps(text(x))) for x, _ in pages]
    for e, w, x in zip(errs, wild, reps):
        if x.errors != e - w: c.fail("page has %d errors, expected %d" % (x.errors, e - w), "errors")
    # n-grams of the correct texts: the same characters, the same counts
    ng, tot = ngrams(c.run("ngram", *xs).out)
    ng.pop(b"{~}", None)
    listed = {("{%s}" % u8.render(p, fake=True)).encode(): v[0] for p, v in s.chars.items()}
    if {a: b[0] for a, b in ng.items()} != listed: c.fail("ngram counts %r, accuracy reports %r" % (dict(list(set((a, b[0]) for a, b in ng.items()) - set(listed.items()))[:5]), dict(list(set(listed.items()) - set((a, b[0]) for a, b in ng.items()))[:5])), "ngram-accuracy")
    if tot - sum(wild) != s.characters: c.fail("ngram counts %d characters, accuracy %d" % (tot - sum(wild), s.characters), "ngram-accuracy")
    # suspects and rejects of the generated texts
    ng, _ = ngrams(c.run("ngram", *ys).out)
    rej = ng.pop(b"{~}", (0, 0))[0]
    if (s.rejects, s.suspects) != (rej, sum(b for _, b in ng.values())): c.fail("rejects and suspects %r, ngram has %r" % ((s.rejects, s.suspects), (rej, sum(b for _, b in ng.values()))), "ngram-accuracy")
    # groups: the parts of a partition add up, page by page and in the sum
    cs = [p for p in s.chars if p != 10 and not u8.is_blank(p) and p not in (94, 126)]; r.shuffle(cs)
    def group(rep, ps):
        c.w("g", "".join(map(chr, ps)).encode())
        m = re.search(rb"^ *(\d+) +(\d+) [^\n]*   Total\n\Z", c.run("groupacc", "g", rep).out, re.M)
        if not m: raise Bad("groupacc")
        return int(m.group(1)), int(m.group(2))
    if cs:
        cut = r.randint(1, len(cs)); parts = [x for x in (cs[:cut], cs[cut:]) if x]
        tot2 = [group("s", x) for x in parts]
        if [sum(t[j] for t in tot2) for j in (0, 1)] != [sum(s.chars[p][j] for p in cs) for j in (0, 1)]: c.fail("groups %r do not add up to the listed characters" % tot2, "groups")
        j = r.randrange(len(parts))
        per = [group(n, parts[j]) for n in names]
        if tuple(map(sum, zip(*per))) != tot2[j]: c.fail("group in the sum %r, in the pages %r" % (tot2[j], per), "groups")
        c.count("groups compared", 2)
    # intervals and distributions of the pages
    obs = [(x.characters, x.errors) for x in reps]
    if sum(n > 0 for n, _ in obs) > 1:
        o = c.run("accci", *names).out
        m = re.match(rb" *(\d+)   Observations\n *(\d+)   Characters\n *(\d+)   Errors\n *(-?[\d.]+)%", o)
        if not m or list(map(int, m.groups()[:3])) != [k, s.characters, s.errors]: c.fail("accci says %r, accsum has %d characters, %d errors" % (o[:150], s.characters, s.errors), "accci-accsum")
        head = re.search(rb"\n *(-?[\d.]+)%  Accuracy\n", c.r("s"))
        if abs(float(m.group(4)) - float(head.group(1))) > 0.0101: c.fail("accci has accuracy %s, accsum %s" % (m.group(4), head.group(1)), "accci-accsum")
    d = c.run("accdist", *names).out
    if s.characters:
        c.same(c.run("accdist", "s").out.split(b"\n")[0] if s.errors <= s.characters else b"  0 100.00", b"  0 100.00", "distribution of the sum")
        rows = [float(l.split()[1]) for l in d.decode().split("\n") if l]
        if rows != sorted(rows, reverse=True) or len(rows) != 101: c.fail("distribution is not monotone", "accdist")
    c.count("pages", k); c.count("characters", s.characters); c.count("errors", s.errors)
    c.note([pages], s.errors > 0, sample=[[x.decode(errors="replace")[:60], y.decode(errors="replace")[:60]] for x, y in pages[:2]])
def words_(c):
    """Word reports, their sum, word frequencies, stopwords."""
    g = gen.Gen(c.rng); r = c.rng
    k = r.randint(2, 5); pages = corpus(c, g, k, True)
    names = ["r%d" % i for i in range(k)]; xs = ["x%d" % i for i in range(k)]
    reps = []
    for i in range(k):
        c.w("r%d" % i, c.run("wordacc", "x%d" % i, "y%d" % i).out); w = model.parse_wac(c.r("r%d" % i)); reps.append(w)
        if {**w.stop_terms, **w.non_terms}: pass
        got = {t: v[0] for d in (w.stop_terms, w.non_terms) for t, v in d.items()}
        f = listing(c.run("wordfreq", "x%d" % i).out)
        if got != f: c.fail("wordacc lists %r, wordfreq %r" % (dict(list(got.items())[:6]), dict(list(f.items())[:6])), "wordacc-wordfreq")
    c.w("s", c.run("wordaccsum", *names).out); s = model.parse_wac(c.r("s"))
    got = {}
    for d in (s.stop_terms, s.non_terms):
        for t, v in d.items(): got[t] = got.get(t, 0) + v[0]
    f = listing(c.run("wordfreq", *xs).out)
    if got != f: c.fail("wordaccsum lists %d words, wordfreq %d, or other counts" % (len(got), len(f)), "wordaccsum-wordfreq")
    if s.total != [sum(x.total[0] for x in reps), sum(x.total[1] for x in reps)] or s.total[0] != sum(f.values()): c.fail("totals %r" % (s.total,), "wordaccsum")
    if sum(x.total[0] > 0 for x in reps) > 1:
        o = c.run("wordaccci", *names).out
        m = re.match(rb" *(\d+)   Observations\n *(\d+)   Words\n *(\d+)   Misrecognized\n", o)
        if not m or list(map(int, m.groups())) != [k] + s.total: c.fail("wordaccci says %r, wordaccsum has %r" % (o[:150], s.total), "wordaccci-wordaccsum")
    # the first line of nonstopacc is the accuracy; removing the report's own stopwords leaves its non-stopwords
    sw = sorted(s.stop_terms)
    c.w("st", b"\n".join(sw))
    o = c.run("nonstopacc", "st", "s").out
    if s.total[0]:
        L = o.split(b"\n")
        if L[0] != b"  0 %6.2f" % (100.0 * (s.total[0] - s.total[1]) / s.total[0]): c.fail("nonstopacc begins with %r, the report has %r" % (L[0], s.total), "nonstopacc")
        n, m = [sum(v[j] for v in s.non_terms.values()) for j in (0, 1)]
        plain_words = all(model.words_of(t, False, False) == [t] for t in sw)
        if n and sw and plain_words and L[-2] != b"%3d %6.2f" % (len(sw), 100.0 * (n - m) / n): c.fail("nonstopacc ends with %r, non-stopwords have %r" % (L[-2], (n, m)), "nonstopacc")
    # with another stopword list the words are the same, only their kind changes
    some = r.sample(sorted(f), min(len(f), 5)); c.w("own", b"\n".join(some))
    if all(model.words_of(t, False, False) == [t] for t in some):
        a = model.parse_wac(c.run("wordacc", "-S", "own", "x0", "y0").out)
        j = {t: v for d in (a.stop_terms, a.non_terms) for t, v in d.items()}; i0 = {t: v for d in (reps[0].stop_terms, reps[0].non_terms) for t, v in d.items()}
        if j != i0 or a.total != reps[0].total: c.fail("another stopword list changes the words", "stopword-list")
        if set(a.stop_terms) != set(some) & set(j): c.fail("stopwords %r, expected %r" % (sorted(a.stop_terms), sorted(set(some) & set(j))), "stopword-list")
    c.count("pages", k); c.count("words", s.total[0]); c.count("misrecognized", s.total[1])
    c.note([pages], s.total[1] > 0, sample=[[x.decode(errors="replace")[:60], y.decode(errors="replace")[:60]] for x, y in pages[:2]])
def edits(c):
    """editop per page, sums, costs, and synctext -T."""
    g = gen.Gen(c.rng); r = c.rng
    k = r.randint(2, 4); es = []
    for i in range(k):
        x, y, a = g.pair(sync_safe=True)
        if r.random() < 0.5: y = g.mutate(y, a, rate=0, moves=r.randint(1, 3))
        editop_judge(c, g.plain(x), g.plain(y), False)
        c.w("e%d" % i, c.run("editop", "a", "b").out); es.append(model.parse_edo(c.r("e%d" % i)))
    c.w("s", c.run("editopsum", *["e%d" % i for i in range(k)]).out)
    s = model.parse_edo(c.r("s"))
    def costs(*n): return [int(l.split()[1]) for l in c.run("editopcost", *n).out.split(b"\n") if l]
    per = [costs("e%d" % i) for i in range(k)]
    if costs("s") != [sum(x) for x in zip(*per)]: c.fail("costs of the sum are not the sum of the costs", "costs")
    i, j = r.randrange(k), r.randrange(k)
    if costs("e%d" % i, "e%d" % j) != [a - b for a, b in zip(per[i], per[j])]: c.fail("cost difference is not the difference of the costs", "costs")
    if any(set(costs("e%d" % i, "e%d" % i)) != {0} for i in range(k)): c.fail("a report costs more than itself", "costs")
    c.count("pages", k); c.count("moves", s.n()); c.note([x.text() for x in es], s.n() + s.ins + s.dele > 0)
def identity(c):
    """A text against itself, through every tool that compares."""
    g = gen.Gen(c.rng); r = c.rng
    k = r.random()
    x = g.plain(g.seq(g.size(0.1, 1500), g.alphabet())) if k < 0.6 else g.join(g.words(r.choice([1, 10, 40]), g.vocab(15, 140))).encode()
    x = x.replace(b"^", b"").replace(b"~", b"-" if k < 0.9 else b"~")
    c.w("x", x); c.w("y", x)
    t = text(x); w = sum(p == WILD for p in cps(t)); n = len(t) - w
    a = model.parse_acc(c.run("accuracy", "x", "y").out)
    if (a.characters, a.errors, a.rejects) != (n, 0, w) or any(v[1] for v in a.chars.values() if w == 0): c.fail("a text against itself: %d characters, %d errors" % (a.characters, a.errors), "identity-accuracy")
    e = model.parse_edo(c.run("editop", "x", "y").out)
    if (e.ins, e.dele, e.n()) != (0, w, 0) and w == 0: c.fail("a text against itself: %r" % e.text(), "identity-editop")
    o = model.parse_wac(c.run("wordacc", "x", "y", quiet_err=True).out)
    if o.total[1]: c.fail("a text against itself: %d words misrecognized" % o.total[1], "identity-wordacc")
    if w == 0:
        if not any(p in gen.SYNC_UNSAFE for p in cps(t)):
            for opts in ([], ["-H"]):
                reg = model.parse_sync(c.run("synctext", *opts, "x", "y").out, ["x", "y"])
                if [v for _, v in reg] != ([[(p, False) for p in cps(t)]] if t else []): c.fail("synctext %s finds differences in a text and its copy" % opts, "identity-synctext")
            p = model.parse_transposed(c.run("synctext", "-T", "x", "y").out)
            if any(len(q) != (1 if t else 0) for q in p): c.fail("synctext -T cuts a text and its copy in pieces", "identity-synctext")
        m = r.randint(2, 4)
        v = c.run("vote", *["x", "y", "x", "y"][:m]).out
        c.same(v, model.written(t), "vote of %d copies" % m)
        c.w("v", v)
        if acc_head(c.run("accuracy", "x", "v").out) != (n, 0): c.fail("the vote of copies has errors", "identity-vote")
        one = c.run("vote", "-o", "v2", "x", "v", "y").out
        if one or c.r("v2") != v: c.fail("vote of votes differs", "identity-vote")
        c.same(c.run("ngram", "v").out, c.run("ngram", "x").out, "n-grams of the vote")
        c.same(c.run("wordfreq", "v").out, c.run("wordfreq", "x").out, "words of the vote")
    c.count("identities"); c.note(x, n > 0, sample=x.decode(errors="replace")[:200])
def metric(c):
    """Errors as a distance: symmetry, triangle, concatenation; every way of obtaining it."""
    g = gen.Gen(c.rng); r = c.rng
    a = [p for p in g.alphabet(sync_safe=True) if p not in (94, 126)] or [97]
    x = g.seq(r.choice([1, 5, 30, 80]), a); y = g.mutate(x, a); z = g.mutate(y, a)
    x, y, z = ([p for p in t if p not in (94, 126)] for t in (x, y, z))
    for n, t in zip("xyz", (x, y, z)): c.w(n, g.plain(t))
    E = lambda p, q: acc_head(c.run("accuracy", p, q).out)[1]
    xy, yx, yz, xz, zx = E("x", "y"), E("y", "x"), E("y", "z"), E("x", "z"), E("z", "x")
    if xy != yx or xz != zx: c.fail("errors %d one way, %d the other" % ((xy, yx) if xy != yx else (xz, zx)), "symmetry")
    if xz > xy + yz or xy > xz + yz or yz > xy + xz: c.fail("errors %d, %d, %d break the triangle inequality" % (xy, yz, xz), "triangle")
    tx, ty = cps(text(c.r("x"))), cps(text(c.r("y")))
    if (xy == 0) != (tx == ty): c.fail("%d errors between texts that %s" % (xy, "are equal" if tx == ty else "differ"), "distance")
    sp = model.check_regions(model.parse_sync(c.run("synctext", "x", "y").out, ["x", "y"]), [tx, ty])
    if model.region_cost(sp) != xy: c.fail("synctext's differences have %d characters, accuracy counts %d errors" % (model.region_cost(sp), xy), "synctext-accuracy")
    h = model.check_regions(model.parse_sync(c.run("synctext", "-H", "x", "y").out, ["x", "y"]), [tx, ty])
    if model.region_cost(h) < xy: c.fail("the heuristic finds %d, less than the minimum %d" % (model.region_cost(h), xy), "heuristic-optimum")
    tz = cps(text(c.r("z"))); c.w("xx", g.plain(tx + [0x3042] + ty)); c.w("yy", g.plain(ty + [0x3042] + tz))
    if E("xx", "yy") > xy + yz: c.fail("two pages together have more errors than separately", "concatenation")
    e = model.parse_edo(c.run("editop", "x", "y").out); f = model.parse_edo(c.run("editop", "y", "x").out)
    if e.ins - e.dele != len(tx) - len(ty): c.fail("insertions %d - deletions %d, lengths %d and %d" % (e.ins, e.dele, len(tx), len(ty)), "editop-lengths")
    if e.ins + e.n() == 0 and e.dele == 0 and tx != ty: c.fail("no operations between different texts", "editop-distance")
    c.count("distances", 6); c.note((x, y, z), xy + yz > 0, sample=[c.r(n).decode(errors="replace")[:80] for n in "xyz"])
def voting(c):
    """Votes scored like any generated text: their marks are what ngram and accuracy count."""
    g = gen.Gen(c.rng); r = c.rng
    a = [p for p in g.alphabet() if p != 94]
    x = g.seq(r.choice([3, 20, 60]), a)
    n = r.choice([2, 3, 3, 5])
    for i in range(n): c.w("v%d" % i, g.marked(g.mutate(x, a)))
    c.w("x", g.plain([p for p in x if p != 126]))
    names = ["v%d" % i for i in range(n)]
    opts = r.choice([[], ["-s", "1/2"], ["-s", "2/3", "-w", "1/2"], ["-O"], ["-w", "1/3"]])
    out = c.run("vote", *opts, *names).out; c.w("out", out)
    c.run("vote", *opts, "-o", "out2", *names)
    c.same(c.r("out2"), out, "vote to a file")
    t = text(out)
    # reading the vote gives what was written: no marker doubled or lost
    c.same("".join("^" * q + chr(p) for p, q in t), out.decode(), "vote read back") if not any(u8.is_blank(p) and p != 32 for p in map(ord, out.decode())) and out.decode() == canonical_lines(out.decode()) else None
    p = model.parse_acc(c.run("accuracy", "x", "out").out)
    ng, tot = ngrams(c.run("ngram", "out").out)
    rej = ng.pop(b"{~}", (0, 0))[0]
    if (p.rejects, p.suspects) != (rej, sum(b for _, b in ng.values())): c.fail("rejects and suspects of the vote: accuracy %r, ngram %r" % ((p.rejects, p.suspects), (rej, sum(b for _, b in ng.values()))), "vote-marks")
    if not opts and out.count(b"^"): c.fail("marks without -s", "vote-marks")
    c.count("votes"); c.note((opts, [c.r(k) for k in names]), True, sample=[opts] + [c.r(k).decode(errors="replace")[:80] for k in names[:2]])
def canonical_lines(s):
    t = text(s.encode()); return "".join("^" * q + chr(p) for p, q in t)
def large(c):
    """Pages with more operations than 16 bits count, through sums and costs."""
    r = c.rng
    k = 2; n = 33000 + r.randint(0, 2000)
    al = "abcdefghijklmnop"
    base = "".join(r.choice(al) for _ in range(300))
    kinds = r.sample(["deletions", "insertions", "both"], 2)
    tot = [0, 0]
    for i, kind in enumerate(kinds):
        x, y = (base, base + "z" * n) if kind == "deletions" else ("z" * n + base, base) if kind == "insertions" else ("x" + "z" * n, "z" * n + "y" * 9)
        c.w("x%d" % i, x); c.w("y%d" % i, y)
        a = c.run("accuracy", "x%d" % i, "y%d" % i).out; c.w("r%d" % i, a)
        want = (len(x), n if kind != "both" else 10)
        if acc_head(a) != want: c.fail("page of %d characters: %r, expected %r" % (len(x), acc_head(a), want), "large")
        tot = [tot[0] + want[0], tot[1] + want[1]]
    s = c.run("accsum", "r0", "r1", "r0").out; c.w("s", s)
    want = model.Acc()
    for q in ("r0", "r1", "r0"): want.add(model.parse_acc(c.r(q)))
    c.same(model.parse_acc(s).text(), want.text(), "sum of large pages")
    w = " ".join(al[i % 16] + al[i // 16 % 16] for i in range(200))
    c.w("w0", (w + " ") + "zz " * n); c.w("w1", w)
    a = model.parse_wac(c.run("wordacc", "w0", "w1").out)
    if a.total != [200 + n, n]: c.fail("words %r, expected %r" % (a.total, [200 + n, n]), "large")
    f = listing(c.run("wordfreq", "w0", "w0").out)
    if f.get(b"zz") != 2 * n or sum(f.values()) != 400 + 2 * n: c.fail("wordfreq counts %r" % f.get(b"zz"), "large")
    c.count("large pages"); c.note(("large", c.index), True)
FAMILIES = {"large": (large, 4, 30), "characters": (characters, 200, 6000), "words": (words_, 200, 4000), "edits": (edits, 60, 3000), "identity": (identity, 240, 6000), "metric": (metric, 200, 5000), "voting": (voting, 250, 4000)}
BIG = ("large",)
MIN_NONTRIVIAL = 500
