import re
import gen, model, u8
from model import Bad, WILD, cps, raw

def text(data, **kw): return model.read_text(data, **kw)[0]

def acc_head(out):
    m = re.match(rb"ocreval Accuracy Report Version [^\n]*\n-{35}\n *(-?\d+)   Characters\n *(-?\d+)   Errors\n", out)
    if not m: raise Bad("no accuracy report: %r" % out[:100])
    return int(m.group(1)), int(m.group(2))

def wac_head(out):
    m = re.match(rb"ocreval Word Accuracy Report Version [^\n]*\n-{40}\n *(-?\d+)   Words\n *(-?\d+)   Misrecognized\n([^\n]*)%  Accuracy\n", out)
    if not m: raise Bad("no word accuracy report: %r" % out[:100])
    return int(m.group(1)), int(m.group(2)), m.group(3)

def edges(c):
    """Sizes around machine limits, by case index."""
    L = [255, 256, 257, 511, 512, 513, 1023, 1024, 1025, 2047, 2049, 4095, 4096, 4097, 8191, 8193, 16383, 16385, 32767, 32768, 32769]
    return L[c.index // 2 % len(L)] if c.index % 2 else int(2 ** c.rng.uniform(6, 16))

POOL = list(range(0x4E00, 0x9F00)) + list(range(0xAC00, 0xD700)) + list(range(0x20000, 0x2A600)) + list(range(0x30000, 0x31300))
def distinct_blocks(lens):
    """Blocks of the given lengths; no character occurs twice."""
    out, i = [], 0
    for n in lens: out.append(POOL[i:i + n]); i += n
    return out

def many_runs(r, n, k, order=None):
    """n runs that k texts share (in the given orders), all characters different, separated by what only one text has."""
    runs = distinct_blocks([r.choice([1, 1, 2, 3, 5]) for _ in range(n)])
    own = [[0x41 + i * 7, 0x42 + i * 7, 0x43 + i * 7] if i < 3 else [0x400 + i * 7 + j for j in range(3)] for i in range(k)]
    texts = []
    for i in range(k):
        t = []
        for b in (order[i] if order else range(n)):
            t += [r.choice(own[i]) for _ in range(r.choice([1, 1, 2]) if i == 0 else r.choice([0, 0, 1]))] + runs[b]
        texts.append(t)
    return runs, texts

def big_words(g, n): return [g.word() for _ in range(n)]

def long_text(g, n, alpha=None, line=70):
    """n characters of prose-like text (newlines every ~line characters)."""
    r = g.r
    a = alpha or (gen.LATIN[:26] + [32] * 5)
    out = []
    while len(out) < n:
        l = [r.choice(a) for _ in range(line)]
        l[0] = l[-1] = 97
        for i in range(1, line):
            if l[i] == 32 and l[i-1] == 32: l[i] = 98
        out += l + [10]
    return out[:n - 1] + [97] if n else []

def few_edits(g, t, k, alpha):
    """k scattered single edits of a long sequence."""
    r = g.r
    t = list(t)
    for _ in range(k):
        i = r.randrange(len(t)) if t else 0
        x = r.random()
        if x < 0.33 and t: del t[i]
        elif x < 0.66 and t: t[i] = r.choice(alpha)
        else: t.insert(i, r.choice(alpha))
    return t

# Every way a text goes into a tool: (label, tool, number of texts, index of texts that may have a header, args from names).
# "R"/"W" stand for a fixed accuracy/word accuracy report file named accrep/wacrep.
def _inv():
    L = []
    def add(label, tool, n, f, out=None): L.append((label, tool, n, f, out))
    add("accuracy", "accuracy", 2, lambda t: t)
    add("accuracy-file", "accuracy", 2, lambda t: t + ["out"], "out")
    add("editop", "editop", 2, lambda t: t)
    add("editop-file", "editop", 2, lambda t: t + ["out"], "out")
    add("synctext", "synctext", 2, lambda t: t)
    add("synctext-H", "synctext", 2, lambda t: ["-H"] + t)
    add("synctext-T", "synctext", 2, lambda t: ["-T"] + t)
    add("synctext-s", "synctext", 2, lambda t: ["-s"] + t)
    add("synctext-i", "synctext", 2, lambda t: t + ["-i"])
    add("synctext-Ts", "synctext", 2, lambda t: ["-T", "-s", "-i"] + t)
    add("synctext-3", "synctext", 3, lambda t: t)
    add("vote", "vote", 3, lambda t: t)
    add("vote-2", "vote", 2, lambda t: t)
    add("vote-O", "vote", 4, lambda t: ["-O", "-s", "1/2"] + t)
    add("vote-file", "vote", 3, lambda t: ["-w", "1/2", "-o", "out"] + t, "out")
    add("ngram-1", "ngram", 1, lambda t: t)
    add("ngram-2", "ngram", 2, lambda t: ["-n", "2"] + t)
    add("ngram-3", "ngram", 1, lambda t: ["-n3"] + t)
    add("wordfreq", "wordfreq", 1, lambda t: t)
    add("wordfreq-2", "wordfreq", 2, lambda t: t)
    add("wordacc", "wordacc", 2, lambda t: t)
    add("wordacc-file", "wordacc", 2, lambda t: t + ["out"], "out")
    add("wordacc-S", "wordacc", 3, lambda t: ["-S"] + t)
    add("groupacc", "groupacc", 1, lambda t: t + ["accrep"])
    add("groupacc-file", "groupacc", 1, lambda t: t + ["accrep", "out"], "out")
    add("nonstopacc", "nonstopacc", 1, lambda t: t + ["wacrep"])
    return L
INV = _inv()
def straddling(r, index, units, size=70000):
    """A long text in which something made of several bytes lies across whatever boundary a block-wise reader may use."""
    u = units[index % len(units)].encode(); k = index // len(units)
    if k % 2 == 0: # the same thing all over, at every alignment
        p = k // 2 % (len(u) + 3)
        return b"x" * p + u * (size // len(u)) + b"end"
    q = [1, len(u) - 1, len(u), 0, 2][k // 2 % 5] # at every multiple of 512, q bytes of it before the boundary
    out = bytearray()
    line = "".join(r.choice(["abc", "de ", "f\n", "ghi, "]) for _ in range(300)).encode()
    while len(out) < size: out += line[:512 - q % 512 - len(out) % 512 if len(out) == 0 else 512 - len(u)] + u
    return bytes(out)
def aux(c, g=None):
    """The fixed reports for groupacc and nonstopacc."""
    a = model.Acc()
    for p in gen.LATIN + [0xE9, 0x4E00, 0x301, 10, 32]: a.add_char(p, 7 + p % 5, p % 3)
    a.characters = sum(v[0] for v in a.chars.values())
    c.w("accrep", a.text())
    ws = [b"the", b"a", b"of", b"abc", b"ab", b"x", "caf\u00e9".encode(), b"b", b"is", b"hello"]
    w = model.Wac.make(ws * 3, set(range(0, 30, 2)), model.DEFAULT_STOPWORDS)
    c.w("wacrep", w.text())
def invoke(c, inv, names, **kw):
    """Complete result of an invocation."""
    label, tool, n, f, out = inv
    if out: c.rm(out)
    r = c.run(tool, *f(list(names)), quiet_err=(tool == "wordacc"), **kw)
    return r.out + (c.r(out) if out else b"")
