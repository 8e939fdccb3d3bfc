"""Word segmentation."""
from props.common import *
RULE = ("a case is a text or a chunk of an enumeration; the words that wordfreq (and wordacc, nonstopacc, stopword files) use are compared with an independent implementation of the "
        "Unicode 8 rules on the sequence of characters; enumerated: all sequences of up to 4 of 19 representatives of the word-break classes (one per line and in files "
        "of their own for up to 3), all code points alone and between letters, those with a class (and their neighbours) in 14 contexts; non-trivial if a segment of at least two characters occurs")
import itertools
REP = {"ALetter": [0x61, 0x3B1, 0x44F, 0x627], "Hebrew_Letter": [0x5D0, 0x5EA], "Numeric": [0x35, 0x660, 0x966], "Katakana": [0x30A2, 0x30F3, 0xFF71], "ExtendNumLet": [0x5F, 0x203F, 0xFE4F],
       "Extend": [0x301, 0x200D, 0x93E, 0xFE0F], "Format": [0xAD, 0x200E, 0x2060], "MidLetter": [0x3A, 0xB7, 0x387], "MidNum": [0x2C, 0x3B, 0x66C], "MidNumLet": [0x2E, 0x2018, 0x2019], "Single_Quote": [0x27],
       "Double_Quote": [0x22], "Regional_Indicator": [0x1F1E6, 0x1F1FF], "Newline": [0x85], "LF": [10], "Other": [0x2D, 0x28, 0x21], "Ideo": [0x4E00, 0x3042, 0x20000], "Blank": [0x20], "Private": [0xE000, 0xF0000]}
CLS = list(REP)

def freq(datas):
    tab = {}
    for d in datas:
        for w in model.words_of(d): tab[w] = tab.get(w, 0) + 1
    return tab
def listing(out):
    head, tab = b"   Count\n", {}
    part = out.split(b"\n\n\n")[0] + b"\n"
    if not part.startswith(head): raise Bad("wordfreq output %r" % out[:60])
    for l in part[len(head):-1].split(b"\n")[:-1]:
        m = re.match(rb" *(\d+)   (.*)", l, re.S)
        if not m: raise Bad("wordfreq line %r" % l)
        tab[m.group(2)] = int(m.group(1))
    return tab
def compare(c, datas, what):
    names = [c.w("t%d" % i, d) for i, d in enumerate(datas)]
    got, want = listing(c.run("wordfreq", *names).out), freq(datas)
    for w in sorted(set(got) | set(want)):
        if got.get(w, 0) != want.get(w, 0):
            c.fail("word %r counted %d times, expected %d (%s)" % (w.decode("utf-8", "replace")[:80], got.get(w, 0), want.get(w, 0), what), "segmentation")
    c.count("words", sum(want.values())); c.count("words of several characters", sum(n for w, n in want.items() if len(w.decode()) > 1))
    return want
def judge(c, data, what="text"):
    w = compare(c, [data], what)
    c.note(data if len(data) < 5000 else (c.family, c.index), any(len(x.decode()) > 1 for x in w), sample=data.decode()[:200])

def lines(c):
    """All sequences of four classes, one per line; index chooses the first two."""
    i, j = divmod(c.index, len(CLS))
    pre = [REP[CLS[i]][0], REP[CLS[j]][0]]
    L = ["".join(map(chr, pre + [REP[x][0], REP[y][0]])) for x in CLS for y in CLS]
    judge(c, "\n".join(L).encode(), "all quadruples beginning with %s %s" % (CLS[i], CLS[j])); c.count("class quadruples", len(L))
def files(c):
    """Sequences of three classes, each in a file of its own (start and end of text matter)."""
    i, j = divmod(c.index, len(CLS))
    ds = ["".join(map(chr, [REP[CLS[i]][0], REP[CLS[j]][0], REP[x][0]])).encode() for x in CLS]
    ds += ["".join(map(chr, [REP[CLS[i]][0], REP[CLS[j]][0]])).encode(), chr(REP[CLS[i]][0]).encode()]
    compare(c, ds, "triples beginning with %s %s" % (CLS[i], CLS[j])); c.count("class triples", len(ds)); c.note(("files", i, j), True)
def classes(c):
    """Random members of random classes."""
    r = c.rng
    n = r.choice([3, 5, 6, 8, 12, 30])
    some = r.sample(CLS, r.randint(2, 8))
    def one():
        k = r.choice(some)
        if r.random() < 0.5 and k in u8.WB_MEMBERS: return r.choice(u8.WB_MEMBERS[k])
        return r.choice(REP[k])
    judge(c, "".join(chr(p) for p in (one() for _ in range(n)) if p != 94 and gen.valid(p)).encode())
def chars(c):
    """Every code point alone on a line, and between two letters, digits, or as the second of a pair."""
    lo = c.index * 0x1100
    cs = [p for p in range(lo, lo + 0x1100) if gen.valid(p) and p not in (94, 10)]
    k = c.index % 4 if c.tier == "quick" else None
    for kind in ([k, 0] if k else [0]) if k is not None else range(6):
        f = [lambda p: chr(p), lambda p: "a" + chr(p) + "b", lambda p: "1" + chr(p) + "2", lambda p: chr(p) + chr(p), lambda p: "\u05d0" + chr(p) + "\u05d1", lambda p: "_" + chr(p) + "\u30a2"][kind]
        judge(c, "\n".join(map(f, cs)).encode(), "code points U+%04X.." % lo); c.count("code points in context", len(cs))
CONTEXTS = ["%s", "a%sb", "1%s2", "\u05d0%s\u05d1", "_%s\u30a2", "-%sa", "%s'a", "1,%s", "%s\"\u05d0", "\U0001F1E6%s", "\u30a2%s", "%s\u0301a", "a%s", "%s_"]
SPECIAL = sorted(set(p for q in u8.WB for p in (q - 1, q, q + 1) if gen.valid(p) and p not in (94, 10)))
CHUNK = 640
def contexts(c):
    """Every code point that has a class of its own, and its neighbours, next to members of the other classes."""
    ps = SPECIAL[c.index * CHUNK:(c.index + 1) * CHUNK]
    if not ps: ps = [p for p in (c.rng.randrange(0x110000) for _ in range(CHUNK)) if gen.valid(p) and p not in (94, 10)]
    judge(c, "\n".join(k % chr(p) for p in ps for k in CONTEXTS).encode(), "code points U+%04X.." % ps[0])
    c.count("code points in all contexts", len(ps))
def nfc(c):
    """Composition and reordering of marks."""
    r = c.rng
    marks = [0x300, 0x301, 0x302, 0x303, 0x308, 0x30A, 0x323, 0x327, 0x328, 0x331, 0x345, 0x338, 0x5B0, 0x5B4, 0x64B, 0x651]
    bases = list(map(ord, "aeiouncsAEz")) + [0xE9, 0x1EA1, 0x3B1, 0x3C9, 0x5D0, 0x627, 0x1100, 0x1161, 0x11A8, 0xAC00, 0x212B, 0x2126, 0xFB1D, 0x1112, 0x3C, 0x3D]
    w = lambda: "".join(chr(r.choice(bases)) + "".join(chr(r.choice(marks)) for _ in range(r.choice([0, 0, 1, 1, 2, 3]))) for _ in range(r.randint(1, 4)))
    judge(c, " ".join(w() for _ in range(r.randint(1, 12))).encode())
def placed(c):
    """The same characters after a long text, before one, and split over a file in any place."""
    g = gen.Gen(c.rng); r = c.rng
    w = r.choice(["don't", "3.14", "a\u0301\u0323bc", "\u05d0\"\u05d1", "x_1_y", "\u30ab\u30bf", "\u00e9t\u00e9", "\u4e00", "can\u2019t", "a.b.c.d", "1,234,567.89"])
    n = r.choice([0, 1, 50, 127, 255, 256, 511, 1000, 1023, 1024, 4000, 4090, 4094, 4095, 4096, 8190, 8192, 16384, 32768, 65535, 65536]) + r.randint(-8, 3)
    pre = ("ab " * (max(0, n) // 3 + 1))[:max(0, n)]
    judge(c, (pre + " " + w + " " + r.choice(["", "x" * r.choice([1, 100, 5000])])).encode(), "after %d characters" % len(pre))
def long(c):
    """Segments of many characters."""
    r = c.rng
    n = r.choice([40, 64, 127, 128, 129, 255, 256, 257, 1000, 5000, 40000])
    bits = r.choice([["a"], ["a", "1", "_"], ["a\u0301"], ["1", ",1"], ["a", "'a"], ["\u30ab"], ["\U0001F1E6"], ["_"], ["a", "\u0301\u0302\u0303", "\u200d"], ["\u05d0", "\"\u05d0"], ["a:a.a'"]])
    t = "".join(r.choice(bits) for _ in range(n))
    judge(c, (t + " b").encode())
def case(c):
    """Lower-casing before segmentation."""
    r = c.rng
    pool = [p for p in r.choice([gen.LATIN[:52], gen.ACCENT, gen.GREEK, gen.CYR, [0x10400, 0x10428, 0x130, 0x1E9E, 0x2126, 0x212A, 0x24B6, 0x24D0, 0x1C4, 0x1C5, 0x1F88, 0xFF21, 0x2160, 0x10A0, 0x13A0]])]
    judge(c, "".join(chr(r.choice(pool + [32, 0x27, 0x301])) for _ in range(r.randint(1, 40))).encode())
def elsewhere(c):
    """The same words in wordacc, stopword files and nonstopacc."""
    r = c.rng; g = gen.Gen(r)
    def txt():
        if r.random() < 0.5: return g.join(g.words(r.randint(1, 12), g.vocab(8, 140)))
        some = r.sample(CLS, r.randint(2, 8))
        return "".join(chr(r.choice(REP[r.choice(some)])) for _ in range(r.randint(1, 25)))
    t = txt().encode(); s = (t.decode()[:r.randint(0, len(t.decode()))] if r.random() < 0.5 else txt()).encode()
    ws, st = model.words_of(t), list(dict.fromkeys(model.words_of(s, False, False)))
    c.w("t", t); c.w("s", s)
    o = c.run("wordacc", "-S", "s", "t", "t", quiet_err=True).out
    want = model.Wac.make(ws, set(range(len(ws))), set(st))
    c.same(o, want.text(), "words or stopwords in wordacc")
    c.w("r", want.text())
    o = c.run("nonstopacc", "s", "r").out
    n = sum(1 for w in st if w in want.stop_terms); left = set(ws) - set(st)
    c.count("stopword decisions", len(set(ws)))
    lines_ = o.count(b"\n")
    allw = model.words_of(s, False, False)
    if ws:
        rem, k = dict(want.stop_terms), 1
        tot = len(ws)
        for w in allw:
            tot -= rem.pop(w, [0])[0]
            if tot == 0: break
            k += 1
        if lines_ != k: c.fail("nonstopacc wrote %d lines, expected %d" % (lines_, k), "nonstopacc-words")
    c.note((t, s), len(ws) > 1 and st)
FAMILIES = {"lines": (lines, 361, 361, "fixed"), "files": (files, 361, 361, "fixed"), "classes": (classes, 1500, 30000), "chars": (chars, 256, 256, "fixed"), "contexts": (contexts, len(SPECIAL) // CHUNK + 5, len(SPECIAL) // CHUNK + 100), "nfc": (nfc, 400, 5000), "placed": (placed, 250, 2500),
            "long": (long, 80, 500), "case": (case, 250, 2500), "elsewhere": (elsewhere, 400, 5000)}
MIN_NONTRIVIAL = 800
