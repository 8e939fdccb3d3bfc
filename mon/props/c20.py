"""nonstopacc."""
from props.common import *
RULE = ("a case is a word accuracy report and a stopword file with listed, absent and repeated words; the whole output is compared with the definition; non-trivial if "
        "at least two removals change the accuracy")
def expect(w, st):
    n, m = w.total
    if n == 0: return b"", 0
    left = {}
    for d in (w.stop_terms, w.non_terms):
        for k, v in d.items(): left.setdefault(k, []).append(v)
    o = ["%3d %6.2f" % (0, 100.0 * (n - m) / n)]
    ch = 0
    for i, x in enumerate(st):
        for cnt, mis in left.pop(x, []):
            n -= cnt; m -= mis; ch += 1
        if n == 0: break
        o.append("%3d %6.2f" % (i + 1, 100.0 * (n - m) / n))
    return ("\n".join(o) + "\n").encode(), ch
def judge(c, w, data, sb):
    c.w("s", sb); c.w("r", data)
    st = model.words_of(sb, False, False)
    want, ch = expect(w, st)
    c.same(c.run("nonstopacc", "s", "r").out, want, "accuracies")
    c.count("lines", want.count(b"\n")); c.count("removals", ch); c.count("stopped early", want.count(b"\n") <= len(st))
    c.note((data, sb), ch > 1, sample=[sb.decode(errors="replace"), data.decode(errors="replace")[:400]])
def stopfile(c, w):
    g = gen.Gen(c.rng); r = c.rng
    ks = [k.decode() for k in list(w.stop_terms) + list(w.non_terms)]
    out = r.sample(ks, r.randint(0, len(ks)))
    out += [g.word() for _ in range(r.randint(0, 5))]
    if out and r.random() < 0.4: out += [r.choice(out) for _ in range(r.randint(1, 4))]
    r.shuffle(out)
    if out and r.random() < 0.4:
        for _ in range(r.randint(1, 6)): # circumflexes are ordinary characters here
            i = r.randrange(len(out)); k = r.randint(0, len(out[i])); out[i] = out[i][:k] + "^" * r.choice([1, 1, 2]) + out[i][k:]
    out = [x.upper() if r.random() < 0.1 and x.isascii() else x for x in out]
    return ("\n".join(out) + r.choice(["", "\n"])).encode() if r.random() < 0.7 else g.join(out).encode()
def synth(c):
    w = gen.Gen(c.rng).wac(c.rng.random() < 0.4)
    judge(c, w, w.text(), stopfile(c, w))
def genuine(c):
    g = gen.Gen(c.rng); r = c.rng
    voc = g.vocab(r.choice([5, 25])) + ["the", "of", "and", "a"]
    ds = []
    for i in range(2):
        ws = g.words(r.randint(0, 60), voc)
        c.w("x", g.join(ws)); c.w("y", g.join(g.mutate_words(ws, voc)))
        c.w("st", g.join(r.sample(voc, 2)))
        ds.append(c.run("wordacc", *(["-S", "st"] if i else []), "x", "y", quiet_err=True).out); c.w("p%d" % i, ds[-1])
    d = c.run("wordaccsum", "p0", "p1").out if r.random() < 0.5 else ds[0]
    w = model.parse_wac(d)
    judge(c, w, d, stopfile(c, w))
def all_(c):
    """Every word removed; the default list in its order; words in both sections."""
    g = gen.Gen(c.rng); r = c.rng
    w = model.Wac.make([r.choice(sorted(model.DEFAULT_STOPWORDS)) for _ in range(r.randint(1, 60))] + [b"zq"] * r.choice([0, 3]), set(), model.DEFAULT_STOPWORDS)
    for k in list(w.stop_terms)[::3]:
        n = w.stop_terms[k][0]; w.stop_terms[k][1] = 0; w.total[1] -= n; ln = min(50, len(k)); w.stop[ln][1] -= n
    if r.random() < 0.3:
        k = next(iter(w.stop_terms)); w.non_terms[k] = [2, 1]; w._inc(w.non, len(k), 2, 1); w.total[0] += 2; w.total[1] += 1; w._inc(w.distinct, 2, 1, 0)
    st = b"\n".join(sorted(model.DEFAULT_STOPWORDS, key=lambda x: r.random()))
    judge(c, w, w.text(), st + r.choice([b"", b"\nzq\n", b"\nzq\nthe\nfoo bar"]))
def long(c):
    """More than 999 stopwords; words of any length."""
    g = gen.Gen(c.rng); r = c.rng
    ws = [("w%dx" % i).encode() for i in range(1500)] + [b"q" * k for k in (50, 99, 128, 255, 300, 5000)]
    w = model.Wac.make(ws + [r.choice(ws) for _ in range(500)], set(range(0, 2000, 3)), set())
    r.shuffle(ws)
    judge(c, w, w.text(), b"\n".join(ws[:r.choice([999, 1001, 1506])]))
def empty(c):
    w = model.Wac()
    for s in (b"", b"the\n", b"- - -", b"a b c"): judge(c, w, w.text(), s)
    w = model.Wac.make([b"the", b"x"], {0}, {b"the"})
    for s in (b"", b"^the", b"~the", model.TITLE + b"5.0\n" + model.DIVIDER * 2 + b"the", b"x the", b"the the x x", b"THE"): judge(c, w, w.text(), s)
    c.w("s", b"the"); c.w("r", w.text())
    for a in (["s"], ["s", "r", "r"], ["s", "missing"], ["missing", "r"], ["r", "s"]): c.expect_error("nonstopacc", *a)
def many(c):
    """More stopwords than a 16-bit number counts; lines continue while a word is left."""
    r = c.rng
    n = [32769, 66000][c.index % 2] + r.randint(0, 50)
    ws = [("w%dx" % i).encode() for i in range(0, n, 7)] + [b"keep"] * 3
    w = model.Wac.make(ws, set(range(0, len(ws), 3)), set())
    judge(c, w, w.text(), b"\n".join(b"w%dx" % i for i in range(n)))
FAMILIES = {"many": (many, 2, 8), "synth": (synth, 1200, 15000), "genuine": (genuine, 350, 4000), "all": (all_, 200, 2000), "long": (long, 4, 30), "empty": (empty, 1, 1)}
MIN_NONTRIVIAL = 400
