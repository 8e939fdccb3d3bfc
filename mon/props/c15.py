"""wordfreq."""
from props.common import *
RULE = ("a case is 1..12 text files of words in several scripts; the whole output is compared with a reference count, and permuting the files must not change "
        "it; non-trivial if at least two words occur, one of them twice")
def expect(datas):
    tab = {}
    for d in datas:
        for w in model.words_of(d): tab[w] = tab.get(w, 0) + 1
    return render(tab), tab
def render(tab):
    tot = b"%8d   Total" % sum(tab.values())
    ln = lambda w: b"%8d   %s" % (tab[w], w)
    o = [b"   Count"] + [ln(w) for w in sorted(tab)] + [tot, b"", b""] + [b"   Count"] + [ln(w) for w in sorted(tab, key=lambda w: (-tab[w], w))] + [tot]
    return b"\n".join(o) + b"\n"
def judge(c, datas, perm=True):
    names = [c.w("t%d" % i, d) for i, d in enumerate(datas)]
    got = c.run("wordfreq", *names).out
    want, tab = expect(datas)
    c.same(got, want, "words of %d files" % len(datas))
    if perm and len(names) > 1:
        c.rng.shuffle(names)
        c.same(c.run("wordfreq", *names).out, got, "files in another order")
    c.count("distinct words", len(tab)); c.count("words", sum(tab.values()))
    c.note(want if len(want) < 9000 else (c.family, c.index), len(tab) > 1 and max(tab.values()) > 1, sample=[d.decode(errors="replace") for d in datas] if sum(map(len, datas)) < 200 else None)
def some(c):
    g = gen.Gen(c.rng); r = c.rng
    voc = g.vocab(r.choice([2, 5, 20, 60]))
    ds = [g.join(g.words(r.choice([0, 3, 20, 80]), voc)).encode() for _ in range(r.choice([1, 1, 2, 3, 12]))]
    if r.random() < 0.1: ds[0] = g.header() + ds[0]
    judge(c, ds)
def ends(c):
    """Files without a final newline, ending or beginning inside something that would join."""
    g = gen.Gen(c.rng); r = c.rng
    bits = ["don'", "t", "'", "3.", "14", "a_", "_b", "\u0301", "\u200d", "caf", "\u00e9", "e\u0301", "\U0001F1E6", "\u30ab", "\u05d0\"", "\u05d1", ".", "x", "\n", "", "\u0308a", "\u1100", "\u1161"]
    judge(c, ["".join(r.choice(bits) for _ in range(r.randint(0, 4))).encode() for _ in range(r.randint(1, 8))])
def random(c):
    """Any characters."""
    g = gen.Gen(c.rng); r = c.rng
    judge(c, [g.marked(g.seq(g.size(), g.alphabet(any_cp=0.5))) for _ in range(r.choice([1, 1, 2, 3]))])
def vocab(c):
    """Large vocabularies, in random or sorted order."""
    g = gen.Gen(c.rng); r = c.rng
    n = [600, 3000, 8000, 20000][c.index % 4]
    al = r.choice(["abcdefghij", "ab\u00e9\u4e00\u044f", "abcdefghijklmnopqrstuvwxyz"])
    ws = ["".join(r.choice(al) for _ in range(r.randint(1, 7))) for _ in range(n)]
    k = r.random()
    if k < 0.25: ws.sort()
    elif k < 0.5: ws.sort(reverse=True)
    judge(c, [" ".join(ws).encode(), "\n".join(ws[:100]).encode()])
def long(c):
    r = c.rng
    L = [49, 50, 51, 63, 64, 65, 127, 128, 129, 255, 256, 257, 511, 512, 1000, 1024, 4096, 65536, 70000][c.index % 19]
    ws = [r.choice("abcABC\u00e9\u00c9\u4e00\u03b1") * (L + d) for d in (-1, 0, 1)]
    judge(c, [" ".join(ws + ws[:1]).encode()])
def twofiles(c):
    """The result for several files is the sum of those for each."""
    g = gen.Gen(c.rng); r = c.rng
    ds = [g.marked(g.seq(g.size(), g.alphabet())) for _ in range(r.randint(2, 5))]
    tot = {}
    for i, d in enumerate(ds):
        o = c.run("wordfreq", c.w("t%d" % i, d)).out
        for l in o.split(b"\n\n\n")[0].split(b"\n")[1:-1]:
            m = re.match(rb" *(\d+)   (.*)", l, re.S); tot[m.group(2)] = tot.get(m.group(2), 0) + int(m.group(1))
    c.same(c.run("wordfreq", *["t%d" % i for i in range(len(ds))]).out, render(tot), "sum of the files")
    c.note(ds, len(tot) > 1)
def counts(c):
    """Numbers of occurrences around the limits of small integer types, and their differences."""
    r = c.rng
    B = [127, 128, 255, 256, 32767, 32768, 32769, 65535, 65536, 65537, 98304, 131072]
    ns = r.sample(B, 3) + r.sample(range(1, 40), 3)
    if c.index % 2 == 0: ns = [65536 + r.choice([0, 1, 40]), r.choice([1, 2, 30]), 32768 + r.randint(0, 9), 32767, r.choice([1, 2]), 3]
    ws = ["%s%s " % (r.choice("abcdef"), chr(103 + i)) for i in range(6)]
    blocks = [w * n for w, n in zip(ws, ns)]
    r.shuffle(blocks)
    judge(c, ["".join(blocks).encode(), (ws[0] * 2).encode()])
def siblings(c):
    """Words with a long beginning in common."""
    g = gen.Gen(c.rng); r = c.rng
    v = g.siblings(r.choice([5, 30, 120]))
    if r.random() < 0.4: v += g.siblings(20)
    n = r.choice([40, 150])
    if c.index % 50 == 0: v = g.siblings(3, (30100, 33000)) + v[:3]; n = 8 # longer than any fixed number of bytes to compare
    judge(c, [g.join(g.words(n, v)).encode() for _ in range(r.choice([1, 2]))])
FAMILIES = {"siblings": (siblings, 150, 2000), "counts": (counts, 6, 40), "some": (some, 700, 9000), "ends": (ends, 500, 6000), "random": (random, 600, 8000), "vocab": (vocab, 8, 60), "long": (long, 19, 57), "twofiles": (twofiles, 150, 1500)}
BIG = ("vocab", "counts")
MIN_NONTRIVIAL = 400
