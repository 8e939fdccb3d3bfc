"""Letter case."""
from props.common import *
from props.c14 import expect as ngram_expect
from props.c15 import expect as freq_expect
from props.c20 import expect as stop_expect
RULE = ("a case is a set of texts and the same texts with some or all letters replaced by their lower-case letters, through the word tools and synctext -i (results must be the same) and through accuracy, editop, ngram, vote and synctext (which must count every difference in case: reference results), "
        "over random texts and over every code point that has a lower-case letter; non-trivial: the replacement changed at least one letter")
CASED = [p for p in range(0x20000) if gen.valid(p) and u8.lower(p) != p]
def lower_some(r, s, p): return "".join(chr(u8.lower(ord(ch))) if r.random() < p else ch for ch in s)
def cased_text(g, n, sync=False):
    r = g.r
    al = r.choice([[ord(x) for x in "aAbBcC"], [ord(x) for x in "\u00c9\u00e9\u0394\u03b4\u0416\u0436eE"], r.sample(CASED, 4) + [97, 65]])
    al = al + [u8.lower(p) for p in al]
    al = [p for p in al if not (sync and p in gen.SYNC_UNSAFE)] + [32, 32, 10, 46]
    return "".join(map(chr, g.seq(n, al)))
def marks(r, t, p):
    """Some characters are marked as suspect, which changes no word and no letter."""
    return "".join("^" + ch if r.random() < p else ch for ch in t)
def upper_words(g, voc, n):
    """Words in any mixture of case."""
    r = g.r
    back = {}
    for p in CASED: back.setdefault(u8.lower(p), []).append(p)
    return [("".join(chr(r.choice(back[ord(ch)])) if ord(ch) in back and r.random() < 0.4 else ch for ch in w)) for w in g.words(n, voc)]
def word_tools(c):
    g = gen.Gen(c.rng); r = c.rng
    aux(c)
    voc = [w for w in g.vocab(10)] + ["the", "of", "I", "caf\u00e9", "\u0394\u03b5", "\u0436\u0430", "stra\u00dfe", "\u0130x", "\u01c5a", "\u1e9e", "a\u0345", "\u212ak", "\u2126m"]
    x = " ".join(upper_words(g, voc, r.randint(1, 40))); y = " ".join(upper_words(g, voc, r.randint(1, 40)))
    if r.random() < 0.4: x, y = cased_text(g, g.size()), cased_text(g, g.size())
    if r.random() < 0.5: y = x if r.random() < 0.3 else "\n".join(g.mutate_words(x.split(), y.split() or ["q"]))
    if r.random() < 0.4: q = r.choice([0.1, 0.5]); x, y = marks(r, x, q), marks(r, y, q); c.count("texts with marked letters", 2)
    s = " ".join(w for w in dict.fromkeys(upper_words(g, voc, 8)))
    p = r.choice([1, 1, 0.5])
    xl, yl, sl = (lower_some(r, t, p) for t in (x, y, s))
    res = []
    for a, b, d in ((x, y, s), (xl, yl, sl), (xl, y, s), (x, yl, sl)):
        c.w("x", a.encode()); c.w("y", b.encode()); c.w("s", d.encode())
        o = [c.run("wordfreq", "x", "y").out, c.run("wordacc", "x", "y", quiet_err=True).out, c.run("wordacc", "-S", "s", "x", "y", quiet_err=True).out]
        c.w("r", o[1]); o.append(c.run("nonstopacc", "s", "r").out)
        for q, i, what in zip(o, res, ("wordfreq", "wordacc", "wordacc -S", "nonstopacc")): c.same(q, i, "%s of lower-case texts" % what)
        res = o
        if len({w for w in model.words_of(d.encode(), False, False)}) != len(model.words_of(d.encode(), False, False)): c.count("stopword files with repeated words")
    c.same(res[0], freq_expect([x.encode(), y.encode()])[0], "words")
    c.count("comparisons", 12); c.note((x, y, s), (x, y) != (xl, yl), sample=[x[:150], y[:150]])
def stopwords(c):
    """A word is a stopword whatever its case, with the default list and with one's own."""
    r = c.rng
    words = sorted(w.decode() for w in model.DEFAULT_STOPWORDS)
    some = r.sample(words, 12)
    mixed = [r.choice([w.upper(), w.capitalize(), w, "".join(r.choice([k, k.upper()]) for k in w)]) for w in some]
    c.w("x", " ".join(mixed + ["Qqq", "QQQ"]))
    ws = [w.lower().encode() for w in mixed + ["Qqq", "QQQ"]]
    got = model.parse_wac(c.run("wordacc", "x", "x").out)
    want = model.Wac.make(ws, set(range(len(ws))), model.DEFAULT_STOPWORDS)
    if (got.stop_terms, got.non_terms) != (want.stop_terms, want.non_terms): c.fail("stopwords of %r: %r" % (mixed, got.stop_terms), "stopword-case")
    c.w("s", "QqQ " + " ".join(mixed[:4]))
    sw = set(model.words_of(c.r("s"), False, False))
    o = c.run("wordacc", "-S", "s", "x", "x").out
    c.same(o, model.Wac.make(ws, set(range(len(ws))), sw).text(), "own stopwords in mixed case")
    c.w("r", o)
    lst = model.words_of(c.r("s"), False, False)
    c.same(c.run("nonstopacc", "s", "r").out, stop_expect(model.parse_wac(o), lst)[0], "stopwords in mixed case")
    c.count("stopwords", len(mixed)); c.note(mixed, True, sample=mixed)
def sync(c):
    """synctext -i shows and compares lower case."""
    g = gen.Gen(c.rng); r = c.rng
    x = cased_text(g, g.size(), True)
    y = "".join(map(chr, g.mutate(list(map(ord, x)), [97, 65, 98, 32]))) if r.random() < 0.7 else cased_text(g, g.size(), True)
    if "{" in x + y or "}" in x + y: return
    if r.random() < 0.5: x, y = marks(r, x, 0.2), marks(r, y, 0.2); c.count("texts with marked letters", 2)
    xl, yl = (lower_some(r, t, 1) for t in (x, y))
    opts = r.choice([["-i"], ["-i"], ["-i", "-H"], ["-T", "-i"], ["-i", "-s"]])
    c.w("x", x); c.w("y", y)
    one = c.run("synctext", *opts, "x", "y").out
    c.w("x", xl); c.w("y", yl)
    c.same(c.run("synctext", *opts, "x", "y").out, one, "%s of lower-case texts" % opts)
    c.same(c.run("synctext", *[o for o in opts if o != "-i"], "x", "y").out, one, "the same without -i")
    p = r.random()
    c.w("x", lower_some(r, x, p)); c.w("y", lower_some(r, y, p))
    c.same(c.run("synctext", *opts, "x", "y").out, one, "%s of texts in other case" % opts)
    c.count("comparisons", 3); c.note((x, y, opts), (x, y) != (xl, yl), sample=[x[:150], y[:150]])
def char_tools(c):
    """Differences in case count as any other."""
    g = gen.Gen(c.rng); r = c.rng
    x = cased_text(g, r.randint(1, 60), True)
    y = lower_some(r, x, r.choice([1, 0.5, 0.1]))
    if r.random() < 0.3: x, y = y, x
    c.w("x", x); c.w("y", y)
    tx, ty = cps(text(x.encode())), cps(text(y.encode()))
    d = model.lev(tx, ty)
    h = acc_head(c.run("accuracy", "x", "y").out)
    if h != (len(tx), d): c.fail("accuracy %r, expected %d characters and %d errors" % (h, len(tx), d), "case-accuracy")
    n = r.randint(1, 3)
    c.same(c.run("ngram", "-n", str(n), "x", "y").out, ngram_expect([text(x.encode()), text(y.encode())], n)[0], "n-grams")
    if not any(p in gen.SYNC_UNSAFE for p in tx + ty):
        sp = model.check_regions(model.parse_sync(c.run("synctext", "x", "y").out, ["x", "y"]), [tx, ty])
        if model.region_cost(sp) != d: c.fail("synctext's differences have %d characters, expected %d" % (model.region_cost(sp), d), "case-synctext")
        model.check_regions(model.parse_sync(c.run("synctext", "-H", "x", "y").out, ["x", "y"]), [tx, ty])
    e = model.parse_edo(c.run("editop", "x", "y").out)
    if (e.ins == 0 and e.dele == 0 and e.n() == 0) != (tx == ty): c.fail("editop finds %r for texts that %s" % (e.text(), "are equal" if tx == ty else "differ in case"), "case-editop")
    common = model.lcs_len(tx, ty)
    if sorted(tx) != sorted(ty) and e.ins + e.dele == 0: c.fail("editop finds no insertion or deletion between different letters", "case-editop")
    o = c.run("vote", "x", "y", "x").out
    got = o.replace(b"^", b"")
    if d and d == sum(p != q for p, q in zip(tx, ty)) and len(tx) == len(ty) and len(set(tx)) == len(tx): c.same(got, model.written([(p, False) for p in tx]), "vote"); c.count("votes")
    c.count("differences in case", d); c.note((x, y), d > 0, sample=[x, y])
def letters(c):
    """Every letter that has a lower-case letter."""
    k = 100
    cs = CASED[c.index * k:(c.index + 1) * k]
    if not cs: c.count("no more letters"); return
    up = "\n".join("x" + chr(p) + "y" for p in cs); lo = "\n".join("x" + chr(u8.lower(p)) + "y" for p in cs)
    c.w("u", up); c.w("l", lo)
    c.same(c.run("wordfreq", "u").out, c.run("wordfreq", "l").out, "words with %d letters" % len(cs))
    h = wac_head(c.run("wordacc", "u", "l").out)
    if h[1] != 0: c.fail("words that differ in case only: %r" % (h,), "case-wordacc")
    h = acc_head(c.run("accuracy", "u", "l").out)
    if h[1] != len(cs): c.fail("%d letters differ in case, accuracy counts %d errors" % (len(cs), h[1]), "case-accuracy")
    c.same(c.run("ngram", "u").out, ngram_expect([text(up.encode())], 1)[0], "letters listed")
    for opts in (["-i"], ["-i", "-H"]):
        reg = model.parse_sync(c.run("synctext", *opts, "u", "l").out, ["u", "l"])
        if len(reg) != 1 or reg[0][0] != "m": c.fail("synctext %s finds differences among letters that differ in case only" % opts, "case-synctext")
        if [p for p, _ in reg[0][1]] != cps(text(lo.encode())): c.fail("synctext %s does not show lower case" % opts, "case-synctext")
    sp = model.check_regions(model.parse_sync(c.run("synctext", "u", "l").out, ["u", "l"]), [cps(text(up.encode())), cps(text(lo.encode()))])
    if model.region_cost(sp) != len(cs): c.fail("synctext sees %d differences of %d" % (model.region_cost(sp), len(cs)), "case-synctext")
    e = model.parse_edo(c.run("editop", "u", "l").out)
    if e.ins + e.dele < 2 * len(cs) and sorted(map(ord, up)) != sorted(map(ord, lo)) and not set(up) & set(lo) - set("xy\n"): c.fail("editop counts %d + %d for %d letters" % (e.ins, e.dele, len(cs)), "case-editop")
    o = c.run("vote", "u", "u", "l").out
    c.same(o.replace(b"^", b""), model.written(text(up.encode())), "vote of two against one")
    # nothing else is changed: every code point near them keeps its own words
    c.count("letters", len(cs)); c.note(("letters", c.index), True, sample=["U+%04X..U+%04X" % (cs[0], cs[-1])])
def others(c):
    """Characters without a lower-case letter are left alone."""
    lo_ = c.index * 0x440
    cs = [p for p in range(lo_, lo_ + 0x440) if gen.valid(p) and p not in (94, 126, 10) and not u8.is_blank(p) and u8.lower(p) == p]
    if not cs or c.tier == "quick" and (c.index + c.seed) % 4 and {u8.cat(p) for p in cs} <= {"Cn", "Co"}: c.count("ranges left to other seeds"); return
    c.w("u", "x" + "x".join(map(chr, cs)) + "x")
    c.w("v", c.r("u"))
    if set(cs) & set(gen.SYNC_UNSAFE):       # but those that the display itself uses
        for k in "uv": c.w(k, "x" + "x".join(chr(p) for p in cs if p not in gen.SYNC_UNSAFE) + "x")
    reg = model.parse_sync(c.run("synctext", "-i", "u", "v").out, ["u", "v"])
    if [p for p, _ in reg[0][1]] != cps(text(c.r("u"))): c.fail("synctext -i alters characters of U+%04X.." % lo_, "case-others")
    t = "\n".join("x" + chr(p) + "y" for p in cs).encode(); c.w("w", t)
    c.same(c.run("wordfreq", "w").out, freq_expect([t])[0], "words with characters of U+%04X.." % lo_)
    c.count("code points", len(cs)); c.note(("others", c.index), True)
FAMILIES = {"words": (word_tools, 400, 6000), "stopwords": (stopwords, 60, 600), "sync": (sync, 500, 8000), "chars": (char_tools, 700, 10000), "letters": (letters, 16, 16, "fixed"), "others": (others, 1024, 1024, "fixed")}
MIN_NONTRIVIAL = 500
