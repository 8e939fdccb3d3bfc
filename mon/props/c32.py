"""Suspect markers, reject characters and headers."""
from props.common import *
from props.c14 import expect as ngram_expect
from props.c20 import expect as stop_expect
import itertools
RULE = ("a case is one of 26 invocations on texts with markers, reject characters and headers in arbitrary places, compared with the same invocation on texts that read the same (repeated or useless markers, with or without a header), or without markers where they cannot matter; "
        "or a report, n-gram list or vote compared with the reference reading of the text; or a header where it is refused; non-trivial: a text with at least one marker or header")
REFUSING = {"accuracy", "accuracy-file", "editop", "editop-file", "wordacc", "wordacc-file"}
NOHEADER = {"groupacc", "groupacc-file", "nonstopacc"}
def reads(d, label, pos):
    """The text of the pos-th argument as the tool must read it."""
    if label in ("groupacc", "groupacc-file"): return model.read_text(d, header=False)[0]
    if label == "nonstopacc" or (label == "wordacc-S" and pos == 0): return model.read_text(d, header=False, markers=False)[0]
    return model.read_text(d)[0]
def canonical(t):
    """A file that reads as t."""
    return "".join("^" * q + chr(p) for p, q in t).encode()
def marked_text(g, a, n=None):
    r = g.r
    a = [x for x in a if x != 94] + [32, 32, 10, 126, 97]
    t = g.seq(g.size() if n is None else n, a)
    p = r.choice([0.05, 0.2, 0.6])
    out = []
    for x in t:
        if r.random() < p: out.append("^" * r.choice([1, 1, 1, 2, 5]))
        out.append(chr(x))
    if r.random() < 0.4: out.append("^" * r.choice([1, 2]))
    return "".join(out).encode()
def remark(g, d):
    """Another file with the same markers: other repetitions, useless ones at the end."""
    r = g.r
    d = re.sub(rb"\^+", lambda m: b"^" * r.choice([1, 1, 2, 3, 70]), d)
    d = d.rstrip(b"^") + r.choice([b"", b"^", b"^^^", b" ^ ", b"\n^\n^", b"^\t"])
    if r.random() < 0.5: d = r.choice([b"^ ", b"\n^\n", b" ^\n ", b"^\t^ "]) + d
    return d
def same_reading(c):
    """Files that read the same give the same results."""
    g = gen.Gen(c.rng); r = c.rng
    inv = INV[c.index % len(INV)]; label, tool, n, f, out = inv
    aux(c)
    a = g.alphabet()
    base = marked_text(g, a)
    ds = [base if i == 0 or r.random() < 0.3 else marked_text(g, a) for i in range(n)]
    names = ["t%d" % i for i in range(n)]
    for k, d in zip(names, ds): c.w(k, d)
    want = invoke(c, inv, names)
    for k, d, i in zip(names, ds, range(n)):
        t = reads(d, label, i)
        e = remark(g, d) if not (label == "nonstopacc" or (label == "wordacc-S" and i == 0)) else d
        if reads(e, label, i) != t: e = canonical(t) if not (label == "nonstopacc" or (label == "wordacc-S" and i == 0)) else d
        if reads(e, label, i) != t: e = d
        c.w(k, e)
    c.same(invoke(c, inv, names), want, "%s: other spelling of the same markers changes the result" % label)
    # tools that take no notice of markers, and texts whose markers do not matter
    plain = [d.replace(b"^", b"") for d in ds]
    free = range(n) if tool in ("editop", "wordacc", "wordfreq", "groupacc", "nonstopacc") or (tool == "synctext" and "s" not in label.replace("synctext", "")) else [0] if tool == "accuracy" else []
    for i in range(n): c.w(names[i], plain[i] if i in free else ds[i])
    if free and [[p for p, _ in reads(plain[i], label, i)] == [p for p, _ in reads(ds[i], label, i)] for i in free] == [True] * len(list(free)):
        c.same(invoke(c, inv, names), want, "%s: markers that cannot matter change the result" % label); c.count("results without markers")
    c.count("results compared"); c.count(label)
    c.note((label, ds), any(b"^" in d for d in ds), sample=[label] + [d.decode(errors="replace")[:150] for d in ds])
def header_variants(g):
    r = g.r
    h = g.header(r.choice([b"5.0", b"7.0", b"", b"x" * 300, "\u00e9".encode(), b"5.0 \xff\xfe", b"6.1\r", b"-" * 48, b"-" * 48]))
    return h
def headers(c):
    """A header in front of any text it may stand before changes nothing; before a correct text it is refused."""
    g = gen.Gen(c.rng); r = c.rng
    inv = INV[c.index % len(INV)]; label, tool, n, f, out = inv
    aux(c)
    names = ["t%d" % i for i in range(n)]
    a = g.alphabet()
    ds = [marked_text(g, a, r.choice([0, 1, 5, 40])) if not (label == "wordacc-S" and i == 0) else b"the of" for i in range(n)]
    # what follows the header must not look like one more divider line or title
    for k, d in zip(names, ds): c.w(k, d)
    want = invoke(c, inv, names)
    no = {i for i in range(n) if (label in REFUSING and i == 0) or (label == "wordacc-S" and i <= 1) or label in NOHEADER}
    put = [i for i in range(n) if i not in no and r.random() < 0.7]
    for i in put:
        h = header_variants(g)
        if model.read_text(h + ds[i])[0] != model.read_text(ds[i])[0] or not model.read_text(h + ds[i])[1]: put.remove(i); continue
        c.w(names[i], h + ds[i])
    if label not in NOHEADER:
        c.same(invoke(c, inv, names), want, "%s: a header changes the result" % label); c.count("headers skipped", len(put))
    # refused
    if label in REFUSING or label == "wordacc-S":
        i = 0 if label in REFUSING else 1
        c.w(names[i], header_variants(g) + ds[i])
        if out: c.rm(out)
        c.expect_error(tool, *f(names)); c.count("headers refused")
        if out and c.exists(out): c.fail("%s writes %s though the correct text is refused" % (label, out), "result-on-error-" + tool)
    c.note((label, ds, put), bool(put) or label in REFUSING, sample=[label] + [c.r(k).decode(errors="replace")[:300] for k in names][:2])
def near(c):
    """Files that begin nearly like a header, are cut off inside one, or hold more than one."""
    g = gen.Gen(c.rng); r = c.rng
    body = canonical(marked := model.read_text(marked_text(g, g.alphabet(sync_safe=True), r.choice([0, 3, 30])))[0])
    h = g.header(r.choice([b"5.0", b"7.0", b"", b"-" * 48]))
    k = c.index % 10
    if k == 0: i = r.randrange(len(model.TITLE)); d = h[:i] + r.choice([b"x", b" ", b"\n", b"^", b"", b"~"]) + h[i + 1:] + body
    elif k == 1: d = h[:r.randrange(len(h) + 1)]
    elif k == 2: d = model.TITLE[:r.randrange(len(model.TITLE) + 1)] + r.choice([b"", b"\n", body])
    elif k == 3: d = r.choice([b" ", b"\n", b"\xef\xbb\xbf", b"^"]) + h + body
    elif k == 4: d = h + h + body
    elif k == 5: d = model.TITLE + b"5.0\n" + r.choice([b"-" * 47, b"-" * 49, b" " + b"-" * 48, b"-" * 48 + b" ", b"-" * 48 + b"\r"]) + b"\n" + body
    elif k == 6: d = h.replace(model.DIVIDER, b"", 1) + body + b"\n" + model.DIVIDER + b"after"
    elif k == 7: d = h[:-1] + r.choice([b"", b"\r\n", b"x\n"]) + body
    elif k == 8: d = h + model.DIVIDER + body
    else: d = model.TITLE.lower() + b"5.0\n" + model.DIVIDER + b"x\n" + model.DIVIDER + body
    try: t = model.read_text(d)[0]
    except UnicodeDecodeError: c.count("skipped"); return
    found = model.read_text(d)[1]
    c.w("d", d)
    n = r.randint(1, 3)
    c.same(c.run("ngram", "-n", str(n), "d").out, ngram_expect([t], n)[0], "n-grams")
    c.same(c.run("vote", "-w", "1/1", "d", "d").out, model.written([(p, False) for p, _ in t]), "vote of the text with itself")
    tab = {}
    for w in model.words_of(d): tab[w] = tab.get(w, 0) + 1
    from props.c15 import render
    c.same(c.run("wordfreq", "d").out, render(tab), "words")
    c.w("x", canonical(t))
    if canonical(t).startswith(model.TITLE): c.count("skipped"); return
    for tool in ("accuracy", "editop", "wordacc"):
        want = c.run(tool, "x", "d", quiet_err=tool == "wordacc").out
        if tool == "accuracy" and acc_head(want)[1]: c.fail("accuracy of the text as it reads: %r" % (acc_head(want),), "reading")
        if found: c.expect_error(tool, "d", "x")
        else: c.same(c.run(tool, "d", "x", quiet_err=tool == "wordacc").out if tool != "accuracy" else b"", c.run(tool, "x", "x", quiet_err=tool == "wordacc").out if tool != "accuracy" else b"", "%s with a text that has nearly a header" % tool)
    # a stopword file has no header: all its words are stopwords
    sw = model.words_of(d, False, False)
    w = model.Wac.make(sorted(set(sw)) + [b"qqqq"], set(range(len(set(sw)))), set(sw)); c.w("r", w.text())
    c.same(c.run("nonstopacc", "d", "r").out, stop_expect(w, sw)[0], "stopwords")
    c.count("headers found" if found else "no header"); c.count("near headers"); c.note((k, d), True, sample=d.decode(errors="replace")[:300])
def counts(c):
    """Rejects, suspects and characters in accuracy reports are those of the texts, whatever the alignment."""
    g = gen.Gen(c.rng); r = c.rng
    x, y, a = g.pair()
    a = [k for k in a if k != 94] + [126]
    cor = marked_text(g, a) if r.random() < 0.3 else g.marked([k for k in x if k != 94], r.choice([0, 0.2]))
    gn = g.marked([k for k in g.mutate(y, a) if k != 94])
    c.w("x", cor); c.w("y", gn)
    tc, tg = text(cor), text(gn)
    p = model.parse_acc(c.run("accuracy", "x", "y").out)
    want = (sum(k != WILD for k, _ in tc), sum(k == WILD for k, _ in tg), sum(q and k != WILD for k, q in tg))
    if (p.characters, p.rejects, p.suspects) != want: c.fail("characters, rejects, suspects %r, expected %r" % ((p.characters, p.rejects, p.suspects), want), "marks")
    if p.false > p.suspects or (p.errors == 0 and p.false != p.suspects and not any(k == WILD for k, _ in tc)): c.fail("%d false marks of %d, %d errors" % (p.false, p.suspects, p.errors), "false-marks")
    if any(k in (94, 126) for k in p.chars): c.fail("^ or ~ among the characters: %r" % (p.chars,), "marks")
    # without errors every mark is false
    g2 = canonical([(k, r.random() < 0.4) for k, _ in tc if k != WILD]); c.w("z", canonical([(k, False) for k, _ in tc if k != WILD])); c.w("y2", g2)
    t2 = text(g2)
    if [k for k, _ in t2] == [k for k, _ in text(c.r("z"))]:
        p = model.parse_acc(c.run("accuracy", "z", "y2").out)
        s = sum(q for _, q in t2)
        if (p.errors, p.suspects, p.false, p.rejects) != (0, s, s, 0): c.fail("right text with %d marks: %r" % (s, (p.errors, p.suspects, p.false, p.rejects)), "false-marks")
    # a text of ~ only against itself: nothing matches, nothing is counted
    c.count("marks", want[2]); c.count("rejects", want[1]); c.note((cor, gn), want[1] + want[2] > 0, sample=[cor.decode(errors="replace")[:150], gn.decode(errors="replace")[:150]])
PLACES = ["a b", "a~", "~", "a\nb", "\u00e9x", "a  b\n\n c", "\na", "ab", "^", ""]
def placed(c):
    """Every placement of markers in short texts."""
    s = PLACES[c.index % len(PLACES)]
    for ks in itertools.product((0, 1, 2), repeat=min(len(s) + 1, 5)):
        ks = list(ks) + [0] * (len(s) + 1 - len(ks))
        if c.index >= len(PLACES): ks.reverse()
        d = "".join("^" * k + ch for k, ch in zip(ks, s + "")) + "^" * ks[-1]
        c.w("d", d)
        t = text(d.encode())
        c.same(c.run("ngram", "d", variant="plain").out, ngram_expect([t], 1)[0], "n-grams of %r" % d)
        p = model.parse_acc(c.run("accuracy", "d", "d", variant="plain").out)
        want = (sum(k != WILD for k, _ in t), sum(k == WILD for k, _ in t), sum(q and k != WILD for k, q in t))
        if (p.characters, p.rejects, p.suspects) != want: c.fail("%r: characters, rejects, suspects %r, expected %r" % (d, (p.characters, p.rejects, p.suspects), want), "marks")
        c.count("placements")
    c.note(("placed", c.index), True)
def weights(c):
    """Votes: marked characters count as -w says, unmarked ones as one."""
    g = gen.Gen(c.rng); r = c.rng
    n = r.choice([2, 3, 3, 4, 5])
    ch = r.sample("abcd\u00e9\u4e00", 4)
    L = r.randint(1, 12)
    ts, rows = [], []
    cols = []
    for _ in range(L):
        cols.append([(ord(r.choice(ch[:2])), r.random() < 0.4) for _ in range(n)])
    # columns separated by longer agreed runs keep the alignment unique
    sep = [[(0x5000 + 3 * i + j, False) for j in range(3)] for i in range(L + 1)]
    for v in range(n):
        t = list(sep[0])
        for i in range(L): t += [cols[i][v]] + sep[i + 1]
        ts.append(t); c.w("t%d" % v, canonical(t))
    w = r.choice([None, "1/1", "1/2", "1/3", "2/3", "1/9", "3/4"])
    reg = [("m", list(sep[0]))]
    for i in range(L):
        if len({p for p, _ in cols[i]}) == 1: reg.append(("m", [cols[i][0]]))
        else: reg.append(("d", [[cols[i][v]] for v in range(n)]))
        reg.append(("m", list(sep[i + 1])))
    merged = []
    for k, v in reg:
        if k == "m" and merged and merged[-1][0] == "m": merged[-1] = ("m", merged[-1][1] + v)
        else: merged.append((k, v))
    wm, wn = (1, 1) if w is None else map(int, w.split("/"))
    want = "".join(("^" if q else "") + chr(p) for p, q in model.vote(merged, ts, wm, wn)).encode()
    got = c.run("vote", *(["-w", w] if w else []), *["t%d" % v for v in range(n)]).out
    c.same(got.rstrip(b"\n"), want.rstrip(b"\n"), "vote with weight %s of %r" % (w, [canonical(t) for t in ts]))
    c.count("votes"); c.note((w, ts), any(q for t in ts for _, q in t), sample=[w] + [canonical(t).decode() for t in ts])
VARIANTS = ("asan", "plain")
def blocks(c):
    """Markers across every boundary that a reader of blocks may have, with and without a header of about that size."""
    r = c.rng
    d = straddling(r, c.index, ["^a", "^^a", "^\u00e9", "^ a", "a^", "^\na", "~^b", "^~", "^\U0001f600"], r.choice([70000, 140000]))
    if r.random() < 0.5:
        h = model.TITLE + b"7.0\n" + model.DIVIDER
        h += (b"y" * 70 + b"\n") * (r.choice([512, 4096, 8192, 65536]) // 71 + r.choice([-1, 0])) + b"z" * r.randint(0, 60) + b"\n" + model.DIVIDER
        d = h + d; c.count("long headers")
    c.w("t", d); n = 1 + c.index % 3
    c.same(c.run("ngram", "-n", str(n), "t").out, ngram_expect([text(d)], n)[0], "markers in a long text")
    c.note(("blocks", c.index), True); c.count("long texts")
FAMILIES = {"blocks": (blocks, 54, 300), "same": (same_reading, 1040, 15000), "headers": (headers, 780, 10000), "near": (near, 400, 5000), "counts": (counts, 600, 10000), "placed": (placed, 20, 20, "fixed"), "weights": (weights, 500, 5000)}
BIG = ("placed",)
MIN_NONTRIVIAL = 800
