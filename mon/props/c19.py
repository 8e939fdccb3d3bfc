"""wordacc's breakdown."""
from props.common import *
RULE = ("a case is a pair of texts with or without -S; the whole report must equal the report of one of the maximum word alignments, all of which are enumerated "
        "(or there is only one by construction); non-trivial if there are recognised and misrecognised words, stopwords and others")
def candidates(ws, vs):
    sets = model.lcs_sets(ws, vs)
    return sets
def judge(c, xb, yb, stop=None, sets=None, out=False, ws=None):
    c.w("x", xb); c.w("y", yb)
    ws = model.words_of(xb) if ws is None else ws
    opts = []
    sw = model.DEFAULT_STOPWORDS
    if stop is not None:
        c.w("s", stop); sw = set(model.words_of(stop, False, False)); opts = c.rng.choice([["-S", "s"], ["-Ss"]])
    p = c.rng.randint(0, 2)
    r = c.run("wordacc", *(["x", "y"][:p] + opts + ["x", "y"][p:]), *(["o"] if out else []), quiet_err=True)
    got = c.r("o") if out else r.out
    if sets is None: sets = candidates(ws, model.words_of(yb))
    if sets is None:
        c.count("too ambiguous"); w = model.parse_wac(got); consistent(c, w, got, ws, sw); return
    for s in sets:
        w = model.Wac.make(ws, s, sw)
        if w.text() == got: break
    else:
        w = model.Wac.make(ws, next(iter(sets)), sw)
        c.same(got, w.text(), "not the report of any of the %d maximum alignments; compared with one of them" % len(sets))
    c.count("alignments enumerated", len(sets)); c.count("stopwords", sum(v[0] for v in w.stop.values())); c.count("non-stopwords", sum(v[0] for v in w.non.values()))
    c.count("misrecognized", w.total[1])
    c.note((xb, yb, stop) if len(xb) < 4000 else (c.family, c.index), 0 < w.total[1] < w.total[0] and w.stop and w.non, sample=[xb.decode(errors="replace")[:300], yb.decode(errors="replace")[:300], (stop or b"-").decode()])
def consistent(c, w, got, ws, sw):
    """What every alignment implies."""
    c.same(got, w.text(), "layout and totals")
    cnt = {}
    for x in ws: cnt[x] = cnt.get(x, 0) + 1
    for d, terms in ((True, w.stop_terms), (False, w.non_terms)):
        if {k: v[0] for k, v in terms.items()} != {k: n for k, n in cnt.items() if (k in sw) == d}: c.fail("word list is not that of the text", "terms")
    for terms, lens in ((w.stop_terms, w.stop), (w.non_terms, w.non)):
        l = {}
        for k, (n, m) in terms.items(): model.Wac._inc(l, min(50, len(k.decode())), n, m)
        if l != lens: c.fail("lengths %r, the listed words give %r" % (lens, l), "lengths")
    occ = {}
    for k, (n, m) in w.non_terms.items(): model.Wac._inc(occ, min(n, 11), 1, int(n == m))
    if occ != w.distinct: c.fail("occurrences %r, the listed words give %r" % (w.distinct, occ), "occurrences")
    n = len(ws)
    if [w.phrase.get(k, [0])[0] for k in range(1, 9)] != [max(0, n - k + 1) for k in range(1, 9)]: c.fail("phrases", "phrases")
    if sum(v[1] for v in list(w.stop_terms.values()) + list(w.non_terms.values())) != w.total[1] or w.phrase.get(1, [0, 0])[1] != w.total[1]: c.fail("totals", "totals")
def small(c):
    g = gen.Gen(c.rng); r = c.rng
    voc = g.vocab(r.choice([2, 4, 8]))
    ws = g.words(r.randint(0, 14), voc)
    vs = g.mutate_words(ws, voc + ["zz"]) if r.random() < 0.85 else g.words(r.randint(0, 14), voc)
    st = None
    if r.random() < 0.4: st = g.join(r.sample(voc, r.randint(0, len(voc)))).encode()
    judge(c, g.join(ws).encode(), g.join(vs).encode(), st, out=r.random() < 0.1)
def repeated(c):
    """The same motifs repeated over and over: long common runs that overlap each other."""
    g = gen.Gen(c.rng); r = c.rng
    x, y = g.repeats(2, list(range(6)))
    if len(x) * len(y) > 4000: x, y = x[:60], y[:60]
    v = ["the", "rest", "of", "us", "word", "then"]
    f = lambda t: " ".join(v[k] for k in t).encode()
    judge(c, f(x), f(y))
def unique(c):
    """Words that are all recognised or all replaced: one maximum alignment."""
    g = gen.Gen(c.rng); r = c.rng
    voc = g.vocab(r.choice([5, 30, 100]))
    ws = g.words(r.choice([20, 100, 400]), voc)
    types = {}
    cur = [model.words_of(w.encode()) for w in voc]
    lost = set(r.sample(voc, r.randint(0, len(voc) // 2)))
    # what is lost must share no word with what is kept
    while True:
        kept = {x for w, x_ in zip(voc, cur) if w not in lost for x in x_}
        fewer = {w for w, x_ in zip(voc, cur) if w in lost and not (set(x_) & kept)}
        if fewer == lost: break
        lost = fewer            # what is kept after all may share words with what is still lost
    lw = {x for w, x_ in zip(voc, cur) if w in lost for x in x_}
    vs = [w if w not in lost else "qqfo" + "abcdefg"[i % 7] for i, w in enumerate(ws)]
    if any(x.startswith(b"qqfo") for x in kept | lw): return
    xb, yb = " ".join(ws).encode(), " ".join(vs).encode()
    wx = model.words_of(xb)
    rec = frozenset(i for i, x in enumerate(wx) if x not in lw)
    st = g.join(r.sample(voc, r.randint(0, len(voc)))).encode() if r.random() < 0.4 else None
    judge(c, xb, yb, st, [rec])
def phrases(c):
    """Distinct words, some lost: phrases and lengths."""
    r = c.rng
    n = r.choice([1, 5, 7, 8, 9, 10, 30, 200])
    ws = ["x%dy" % i for i in range(n)] if r.random() < 0.5 else list(dict.fromkeys("".join(r.choice("abcdefgh") for _ in range(r.choice([1, 2, 3, 10, 48, 49, 50, 51, 52, 70]))) for _ in range(n)))
    sw = sorted(model.DEFAULT_STOPWORDS); r.shuffle(sw)
    ws = [w for w in ws if w.encode() not in model.DEFAULT_STOPWORDS]
    for w in sw[:r.choice([0, 3, 110])]: ws.insert(r.randint(0, len(ws)), w.decode())
    n = len(ws)
    lost = {i for i in range(n) if r.random() < r.choice([0, 0.05, 0.3, 0.8])}
    vs = [w if i not in lost else r.choice(["ZZZ", ""]) for i, w in enumerate(ws)]
    judge(c, " ".join(ws).encode(), " ".join(vs).encode(), None, [frozenset(range(n)) - lost])
def occurs(c):
    """Numbers of occurrences around the limits."""
    r = c.rng
    words = ["w%s" % ch for ch in "abcdefghijklm"] + ["the", "of"]
    cnt = {w: r.choice([1, 2, 9, 10, 11, 12, 30]) for w in r.sample(words, r.randint(1, 10))}
    lost = {w for w in cnt if r.random() < 0.3}
    ws = sum(([w] * k for w, k in cnt.items()), [])
    if r.random() < 0.5: r.shuffle(ws)
    vs = [w for w in ws if w not in lost]
    judge(c, " ".join(ws).encode(), " ".join(vs).encode(), r.choice([None, b"wa wb wc"]), [frozenset(i for i, w in enumerate(ws) if w not in lost)])
def often(c):
    """Thousands of occurrences of a word, recognized or missed as a whole."""
    r = c.rng
    words = ["aa", "bb", "the", "cc"]
    cnt = {w: r.choice([1, 255, 256, 999, 1000, 1001, 1024, 2000]) for w in r.sample(words, 3)}
    k = r.choice(sorted(cnt)); cnt[k] = 1 + r.choice([256, 999, 1000, 1023])
    if c.index % 3 == 0: cnt[k] = [4097, 16385, 32769, 65537, 70001][c.index // 3 % 5]
    lost = {w for w in cnt if r.random() < 0.5}
    if c.index % 3 == 0: lost.add(k)
    ws = sum(([w] * k for w, k in cnt.items()), [])
    vs = [w for w in ws if w not in lost]
    judge(c, " ".join(ws).encode(), " ".join(vs).encode(), None, [frozenset(i for i, w in enumerate(ws) if w not in lost)])
def stopwords(c):
    """Every default stopword, in upper and lower case, and words that are nearly stopwords."""
    r = c.rng
    st = sorted(w.decode() for w in model.DEFAULT_STOPWORDS)
    ws = [r.choice([w, w.upper(), w.capitalize(), w + "s", "x" + w, w[:-1] or "z", w + "\u0301"]) for w in st] + [w for w in st]
    xb = " ".join(ws).encode()
    wx = model.words_of(xb)
    judge(c, xb, xb, None, [frozenset(range(len(wx)))])
def lengths(c):
    """Word lengths in characters, several scripts."""
    r = c.rng
    ws = []
    for k in list(range(1, 56)) + [63, 64, 99, 100, 127, 128, 200, 255, 256, 300, 1000]:
        if r.random() < 0.5: ws.append(r.choice("ab\u00e9\u0434\u03b1\u05d0") * k)
        if r.random() < 0.1: ws.append("\U00010428" * k)
        if r.random() < 0.1: ws.append("e\u0323\u0301" * k)
    r.shuffle(ws)
    xb = " ".join(ws).encode(); wx = model.words_of(xb)
    judge(c, xb, xb, r.choice([None, " ".join(ws[:5]).encode()]), [frozenset(range(len(wx)))], ws=wx)
def large(c):
    """Too large for enumerating: what holds for all alignments."""
    g = gen.Gen(c.rng); r = c.rng
    voc = g.vocab(r.choice([300, 2000]))
    ws = g.words(r.choice([1000, 5000]), voc)
    vs = g.mutate_words(ws, voc, rate=0.05)
    xb, yb = g.join(ws).encode(), g.join(vs).encode()
    c.w("x", xb); c.w("y", yb)
    o = c.run("wordacc", "x", "y").out
    consistent(c, model.parse_wac(o), o, model.words_of(xb), model.DEFAULT_STOPWORDS)
    c.note((c.family, c.index), True)
def manystops(c):
    """Thousands of stopwords, and thousands of distinct words that are or are not among them."""
    g = gen.Gen(c.rng); r = c.rng
    n = [300, 1100, 2600, 5000][c.index % 4]
    st = ["s%dx" % i for i in range(n)]; oth = ["n%dx" % i for i in range(n)]
    ws = st + oth + r.choices(st + oth, k=n // 2); r.shuffle(ws)
    lost = {i for i in range(len(ws)) if r.random() < 0.02}
    xb, yb = " ".join(ws).encode(), " ".join("lost" if i in lost else w for i, w in enumerate(ws)).encode()
    c.w("s", "\n".join(st + ["never"])); c.w("x", xb); c.w("y", yb)
    o = c.run("wordacc", "-S", "s", "x", "y").out
    w = model.parse_wac(o)
    consistent(c, w, o, [k.encode() for k in ws], {k.encode() for k in st + ["never"]})
    if w.text() != o: c.same(o, w.text(), "written form")
    c.count("stopwords", n); c.note((c.family, c.index), True)
FAMILIES = {"repeated": (repeated, 150, 2500), "small": (small, 1500, 20000), "unique": (unique, 250, 2500), "phrases": (phrases, 400, 4000), "occurs": (occurs, 300, 3000), "stopwords": (stopwords, 20, 200), "lengths": (lengths, 60, 600), "large": (large, 10, 100), "manystops": (manystops, 8, 40), "often": (often, 12, 120)}
BIG = ("large", "often")
MIN_NONTRIVIAL = 400
