"""No text input causes a memory error, crash or undefined behaviour."""
from props.common import *
import itertools, shutil, os
RULE = ("a case is a set of text files given to one of 26 invocations (and to random option combinations); the run must end by itself with status 0 or 1 without a report of AddressSanitizer, UBSan or valgrind; "
        "enumerated: every string of up to three of ten hostile atoms, every code point; sampled: byte soup, structured soup, long lines and words, limits; non-trivial: the text is read to its end (status 0) and is not ASCII letters only")
ASSUMPTIONS = ["gcc's AddressSanitizer and UBSan and valgrind's memcheck see the memory errors that matter; leaks are not counted as errors"]
ATOMS = ["a", "^", "~", "\n", " ", "\u0301", "\U0010ffff", "\0", "{", "\u00e9"]
PIECES = ["{1}", "{1:a}", "{}-{}", "^", "^^", "~", "~~", "<\\n>", "<00>", "%", "%s%n", "\u25cc", "\u25cc\u0301", "\u0301", "\u00ad", "\u200d", "\ufeff", "\U0010ffff", "\ufffe", "\x7f", "\x80", "\0", "\r\n", "\r", "\t", "\x0b", "\x0c",
          "\u00a0", "\u2028", "\u3000", "\U0001F1E6", "\U0001F468", "\u05d0\"", "don't", "3.14", "_", "a", "b", "ab", "the", "\u0130", "\u1e9e", "\u212a", "\ufb03", "\u03a3", "\uac00", "\u1100\u1161", "\n", " ", "\n\n", "  ",
          "====", "=" * 79, "-" * 47 + "\n", "%s\n" % model.TITLE.decode("latin1") if isinstance(model.TITLE, bytes) else model.TITLE, "\\", "\"", "'", "*"]
def seen(c, r, texts, label):
    c.count("status %d" % r.rc); c.count(label)
    c.note((label, texts if sum(map(len, texts)) < 3000 else (c.family, c.index)), r.rc == 0 and any(not t.isalpha() or not t.isascii() for t in texts),
           sample=[label] + [t[:60].decode("utf-8", "replace") for t in texts] if sum(map(len, texts)) < 300 else None)
SLOW = ("editop", "editop-file", "synctext-T", "synctext-Ts")     # cubic in the worst case: small texts only
def cap(inv, t, n=700):
    if inv[1] == "vote" or inv[0] in ("synctext-H", "synctext-3"): n = 1500
    elif inv[0] not in SLOW: n = 60000 if inv[1] != "accuracy" and inv[1] != "synctext" else 12000
    if len(t) <= n: return t
    return t.decode("utf-8", "replace")[:n].encode() if _ok(t) else t[:n]
def go(c, inv, texts, variant="asan", prefix=()):
    label, tool, n, f, out = inv
    aux(c)
    texts = [cap(inv, t) for t in texts]
    names = [c.w("t%d" % i, t) for i, t in enumerate(texts)]
    if out: c.rm(out)
    r = c.run(tool, *f(names), ok=(0, 1), quiet_err=True, variant=variant, prefix=prefix)
    if r.rc == 1 and not r.err: c.fail("%s fails without a message" % label, "silent-" + tool)
    seen(c, r, texts, label)
    return r
def soup_text(g):
    r = g.r
    k = r.random()
    if k < 0.3: return "".join(r.choice(PIECES) for _ in range(r.choice([0, 1, 2, 5, 20, 100]))).encode()
    if k < 0.45: return g.marked(g.seq(g.size(0.05), g.alphabet()))
    if k < 0.55: return bytes(r.randrange(256) for _ in range(r.choice([0, 1, 2, 5, 30, 300])))
    if k < 0.65: return g.header() + g.marked(g.seq(g.size(), g.alphabet()))
    if k < 0.72: return g.header()[:r.randint(0, 300)]
    if k < 0.8: return (r.choice(PIECES) * r.choice([1, 2, 60, 255, 256, 1024, 5000])).encode()
    if k < 0.9:
        cs = [r.choice([r.randint(0, 0x10FFFF), r.randint(0, 0xFFFF), r.choice(gen.CTRL), r.choice(gen.MARKS), r.choice(gen.BLANKS), 10]) for _ in range(r.randint(1, 80))]
        return g.marked([p for p in cs if gen.valid(p)])
    return g.join(g.words(r.randint(0, 60), g.vocab(12, 140))).encode()
def soup(c):
    g = gen.Gen(c.rng); r = c.rng
    inv = INV[c.index % len(INV)]
    ts = [soup_text(g)]
    while len(ts) < inv[2]:
        if r.random() < 0.5:
            t = bytearray(r.choice(ts))
            for _ in range(r.choice([0, 1, 2, 8])):
                if not t: break
                i = r.randrange(len(t)); x = r.random()
                if x < 0.4: del t[i:i + r.choice([1, 1, 4, 30])]
                elif x < 0.7: t[i:i] = r.choice(PIECES).encode()
                else: t[i:i + 1] = bytes([r.randrange(256)]) if r.random() < 0.3 else b"x"
            ts.append(bytes(t))
        else: ts.append(soup_text(g))
    r.shuffle(ts)
    go(c, inv, ts)
def small(c):
    """Index enumerates strings of up to three atoms; each goes into every invocation, together with another of them."""
    S = [""] + ["".join(x) for k in (1, 2, 3) for x in itertools.product(ATOMS, repeat=k)]
    per = 1 if c.tier == "quick" else len(INV)
    for j in range(per):
        s = S[c.index % len(S)]
        inv = INV[(c.index + j + c.seed) % len(INV)]
        go(c, inv, [s.encode()] + [c.rng.choice(S).encode() for _ in range(inv[2] - 1)])
def cpchunk(c):
    """Every code point through the invocations."""
    k = c.index
    inv, chunk = (INV[k % len(INV)], (k * 131 + c.seed) % 256) if c.tier == "quick" else (INV[k // 256], k % 256)
    cs = [p for p in range(chunk * 0x1100, (chunk + 1) * 0x1100) if gen.valid(p) and p not in (94,)]
    r = c.rng
    style = r.randrange(4)
    mk = lambda: "".join(("^" if style == 1 else "") + chr(p) + ("\n" if style == 2 else " " if style == 3 and r.random() < 0.3 else "") for p in cs if r.random() < 0.985).encode()
    go(c, inv, [mk() for _ in range(inv[2])]); c.count("code points", len(cs))
def reports(c):
    """Every code point through an accuracy report and all tools that read it."""
    k = c.index
    cs = [p for j in range(4) for p in range((k * 4 + j) % 256 * 0x1100, ((k * 4 + j) % 256 + 1) * 0x1100) if gen.valid(p) and p not in (94, 126)]
    r = c.rng
    c.w("x", "".join(map(chr, cs)).encode()); c.w("y", "".join(chr(p) for p in cs if r.random() < 0.99).encode())
    c.run("accuracy", "x", "y", "r"); c.run("groupacc", "x", "r", "g"); s = c.run("accsum", "r", "r").out
    c.w("s", s); c.run("groupacc", "y", "s"); c.run("accci", "r", "s"); c.run("accdist", "r", "s")
    shown = len(c.r("g").splitlines()) - 2
    c.count("code points", len(cs)); c.count("code points read back from reports", shown); c.note(("reports", k, shown), shown > 1000)
def options(c):
    """Arbitrary argument vectors over existing text files."""
    g = gen.Gen(c.rng); r = c.rng
    aux(c)
    tool = r.choice(["accuracy", "editop", "synctext", "vote", "ngram", "wordfreq", "wordacc", "groupacc", "nonstopacc"])
    n = r.choice([0, 1, 2, 2, 3, 3, 4, 16, 17, 18, 30])
    ts = []
    for i in range(n):
        ts.append(soup_text(g) if not ts or r.random() < 0.4 else r.choice(ts)); c.w("t%d" % i, ts[-1])
    pool = ["-H", "-i", "-s", "-T", "-O", "-D", "-n", "-n1", "-n2", "-n3", "-n4", "-n0", "-n-1", "-n99999999999999999999", "-nx", "-s1/2", "-s", "-s1/0", "-s0/0", "-s-1/2", "-s9999999999/3", "-s1/99999999999999999999", "-w", "-w1/2", "-w0/1", "-w-1/-1", "-w1/",
            "-w/", "-w//", "-oout", "-o", "-S", "-St0", "-Snone", "-", "--", "-x", "-HT", "-hel", "-helpx", "out", "accrep", "none", "", "-w3/2", "-s32768/1", "-w65536/65535", "-w2147483647/1", "-s" + "9" * 400]
    args = ["t%d" % i for i in range(n)]
    # the report tools must not be given "-" and would otherwise overwrite texts; everything lives in the case's directory
    for _ in range(r.choice([0, 0, 1, 1, 2, 3])): args.insert(r.randint(0, len(args)), r.choice(pool))
    res = c.run(tool, *args, ok=(0, 1), quiet_err=True)
    if res.rc == 1 and not res.err: c.fail("%s fails without a message" % quote_args(tool, args), "silent-" + tool)
    seen(c, res, ts, "options-" + tool)
def quote_args(t, a): return " ".join([t] + a)[:300]
def long(c):
    """Long lines, words, repetitions."""
    g = gen.Gen(c.rng); r = c.rng
    inv = INV[c.index % len(INV)]
    n = r.choice([255, 256, 1023, 1024, 1025, 4095, 4096, 4097, 20000, 65535, 65537])
    unit = r.choice(["a", "ab", "a ", "\n", "a\n", " ", "~", "^", "^a", "^~", "\u0301", "a\u0301", "\U0010ffff", "'", "1,", "\0", "{", "\u4e00", "_", "\u3042"])
    t = (unit * n).encode()
    def vary():
        t2 = bytearray(t)
        for _ in range(r.choice([0, 1, 3])):
            i = r.randrange(len(t2)) // len(unit.encode()) * len(unit.encode()); t2[i:i] = b"x"
        return bytes(t2[:len(t2) // len(unit.encode()) * len(unit.encode())]) if r.random() < 0.3 else bytes(t2)
    quadratic = inv[1] in ("accuracy", "editop", "vote") or inv[0].startswith("synctext")
    if quadratic and n > 5000:
        n //= 16
        t = (unit * n).encode()
    ts = [t] + [vary() if quadratic or r.random() < 0.5 else (unit * r.choice([1, n // 2])).encode() for _ in range(inv[2] - 1)]
    ts = [x if _ok(x) else t for x in ts]
    go(c, inv, ts)
def _ok(b):
    try: b.decode(); return True
    except UnicodeDecodeError: return False
def limits(c):
    """Whole reports and syncs around fixed sizes inside the tools: display limits, table sizes, word lengths."""
    r = c.rng
    inv = INV[c.index % len(INV)]
    k = c.index // len(INV) + r.choice([0, 0, 1])
    sizes = [22, 23, 24, 25, 26, 49, 50, 51, 52, 99, 100, 101, 102, 127, 128, 129, 255, 256, 257, 502, 503, 504, 999, 1000]
    n = sizes[k % len(sizes)]
    ch = r.choice(["a", "\u00e9", "\u4e00", "\U0001F600", "\U0010FFFF", "\u0301", "\U00010A01", "<", "\n", "\x01", "~", "^a"])
    words = " ".join("".join(chr(97 + (i // 26 ** j) % 26) for j in range(3)) for i in range(n))
    alts = [(ch * n), "x" + ch * n + "y", words, (ch * n + " ") * 3, "x" * n + ch, "".join(ch + chr(0x100 + i) for i in range(n)), "one " * n, ""]
    go(c, inv, [r.choice(alts).encode() for _ in range(inv[2])])
MANY = [("vote", (), 15), ("vote", (), 16), ("vote", ("-O",), 16), ("vote", ("-O",), 15), ("vote", ("-s", "1/2"), 16), ("vote", ("-w", "1/3"), 16), ("vote", ("-O", "-s", "1/2", "-w", "2/3"), 16), ("synctext", (), 16), ("synctext", ("-i",), 16),
        ("synctext", ("-s",), 16), ("synctext", ("-H",), 16), ("ngram", (), 60), ("ngram", ("-n", "3"), 60), ("wordfreq", (), 60), ("vote", ("-O",), 17), ("synctext", (), 17)]
def many(c):
    """As many texts as the tools take."""
    g = gen.Gen(c.rng); r = c.rng
    tool, opts, n = MANY[c.index % len(MANY)]
    a = g.alphabet()
    base = g.seq(r.choice([3, 20, 60, 120]), a)
    ts = []
    for _ in range(n):
        k = r.random()
        t = g.marked(g.mutate(base, a, moves=0)) if k < 0.8 else r.choice(ts) if ts and k < 0.9 else soup_text(g)[:300].decode("utf-8", "ignore").encode()
        ts.append(t)
    for i, t in enumerate(ts): c.w("t%d" % i, t)
    res = c.run(tool, *opts, *["t%d" % i for i in range(n)], ok=(0, 1), quiet_err=True)
    if res.rc == 1 and not res.err: c.fail("%s of %d texts fails without a message" % (tool, n), "silent-" + tool)
    seen(c, res, ts, "%s of %d texts" % (tool, n))
def blocks(c):
    """Many blocks in another order, and the displays of them."""
    g = gen.Gen(c.rng); r = c.rng
    n = r.choice([9, 10, 11, 30, 99, 100, 101, 130] if c.tier == "quick" else [11, 101, 300, 600])
    L = r.choice([2, 3, 7])
    base = [chr(0x4E00 + i) for i in range(n * L)]
    bs = ["".join(base[i * L:(i + 1) * L]) for i in range(n)]
    two = list(bs); k = r.randrange(3)
    if k == 0: two.reverse()
    elif k == 1: r.shuffle(two)
    else: two = two[n // 2:] + [x for x in two[:n // 2] if r.random() < 0.8]
    ts = ["".join(bs).encode(), r.choice(["", "|"]).join(two).encode()]
    for i, t in enumerate(ts): c.w("t%d" % i, t)
    how = r.choice([("editop", "-D"), ("editop",), ("synctext", "-T"), ("synctext", "-T", "-s"), ("synctext", "-T", "-H")])
    if how[0] == "editop" and r.random() < 0.5: how += ("-D",) if "-D" not in how else ()
    res = c.run(*how, "t0", "t1", ok=(0, 1), quiet_err=True)
    if res.rc == 1 and not res.err: c.fail("%s fails without a message" % " ".join(how), "silent-" + how[0])
    seen(c, res, ts, "blocks")
def names(c):
    """Names of files and of the tool itself, short and very long, in messages and in displays."""
    g = gen.Gen(c.rng); r = c.rng
    aux(c)
    inv = INV[c.index % len(INV)]
    L = [1, 9, 10, 20, 60, 99, 100, 101, 255][c.index // len(INV) % 9]
    deep = r.random() < 0.3
    d = "/".join(["d" * 200] * r.choice([1, 4, 18])) if deep else "."
    os.makedirs(os.path.join(c.dir, d), exist_ok=True)
    ch = r.choice(["n", "%", "\u00e9", " ", "%s", "{"])
    def name(i): return os.path.join(d, (str(i) + ch * 255).encode()[:L].decode("utf-8", "ignore"))
    ns = [c.w(name(i), cap(inv, soup_text(g))) if i < inv[2] - 1 or r.random() < 0.9 else name(i) for i in range(inv[2])]
    if inv[4]: c.rm(inv[4])
    res = c.run(inv[1], *inv[3](ns), ok=(0, 1), quiet_err=True)
    if res.rc == 1 and not res.err: c.fail("%s fails without a message" % inv[0], "silent-" + inv[1])
    seen(c, res, [n.encode() for n in ns], "names")
def memcheck(c):
    """The same, uninstrumented, under valgrind: uninitialised values."""
    g = gen.Gen(c.rng); r = c.rng
    if not shutil.which("valgrind"): c.count("no valgrind"); return
    inv = INV[c.index % len(INV)]
    def t():
        while True:
            x = soup_text(g)
            if len(x) < 4000: return x
    ts = [t()]
    while len(ts) < inv[2]: ts.append(g.marked(g.mutate([ord(x) for x in ts[0].decode("utf-8", "ignore")], list(map(ord, "ab \n~")))) if r.random() < 0.6 else t())
    go(c, inv, ts, variant="plain", prefix=["valgrind", "-q", "--error-exitcode=99", "--track-origins=no", "--leak-check=no"])
    c.count("memcheck runs")
VARIANTS = ("asan", "plain")
FAMILIES = {"soup": (soup, 2600, 60000), "small": (small, 1111, 1111, "fixed"), "cpchunk": (cpchunk, 260, 6656, "fixed"), "reports": (reports, 64, 256), "options": (options, 700, 20000), "long": (long, 260, 2600),
            "names": (names, 234, 2340), "limits": (limits, 624, 6240), "memcheck": (memcheck, 52, 1040), "many": (many, 96, 1600), "blocks": (blocks, 60, 600)}
BIG = ("long", "memcheck")
MIN_NONTRIVIAL = 1000
