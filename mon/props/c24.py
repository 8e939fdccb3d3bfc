"""Damaged report files are handled safely and wrong ones rejected."""
from props.common import *
import shutil
RULE = ("a case is a report of one of three kinds (written by the reference writer), damaged in one of many ways, read by each tool that reads such reports; a run must end by itself with status 0, or with status 1 and a message, "
        "without sanitizer or valgrind reports; files of another kind must be refused with a message naming the file and without output; enumerated: truncation at every byte of small reports, every single-byte change of their first two lines, every tool with every wrong kind; "
        "non-trivial: the damaged file still begins as a report")
ASSUMPTIONS = ["sums of counts near 2^63 in damaged reports may wrap around: signed overflow is not reported in this check (other undefined behaviour is)"]
VARIANTS = ("asanrpt", "plain")
# tool -> (kind, [argument lists with R standing for the damaged report and G for a good one of the kind])
READERS = {"accsum": ("acc", [["R", "G"], ["G", "R"], ["R", "R"], ["G", "R", "G", "out"][:3]]), "accdist": ("acc", [["R"], ["G", "R"]]), "accci": ("acc", [["R", "G"], ["G", "R", "G"]]), "groupacc": ("acc", [["text", "R"], ["text", "R", "out"]]),
           "editopsum": ("edo", [["R", "G"], ["G", "R"], ["R", "R"]]), "editopcost": ("edo", [["R"], ["R", "G"], ["G", "R"]]),
           "wordaccsum": ("wac", [["R", "G"], ["G", "R"], ["R", "R"]]), "wordaccdist": ("wac", [["R"], ["G", "R"]]), "wordaccci": ("wac", [["R", "G"], ["G", "R", "G"]]), "nonstopacc": ("wac", [["text", "R"]])}
def setup(c, g):
    good = {"acc": g.acc(False), "edo": g.edo(False), "wac": g.wac(False)}
    for k in good: c.w("G" + k, good[k].text())
    c.w("text", "abc the \u00e9 of 0 1 2 { } < > \u0301 \U0010ffff a b x\n")
def read_with(c, tool, damaged, form=None, refused=False, variant="asanrpt", prefix=()):
    kind, forms = READERS[tool]
    f = forms[c.rng.randrange(len(forms))] if form is None else forms[form % len(forms)]
    c.w("dam aged.rpt", damaged); c.rm("out")
    args = ["dam aged.rpt" if a == "R" else "G" + kind if a == "G" else a for a in f]
    kw = dict(variant=variant, prefix=prefix)
    if refused:
        r = c.expect_error(tool, *args, **kw)
        if b"dam aged.rpt" not in r.err: c.fail("%s %s: message does not name the file: %r" % (tool, args, r.err[:200]), "no-name-" + tool)
        if c.exists("out"): c.fail("%s wrote a report though its input is no report" % tool, "result-on-error-" + tool)
        c.count("refused")
    else:
        r = c.run(tool, *args, ok=(0, 1), quiet_err=True, **kw)
        if r.rc == 1 and not r.err.startswith(tool.encode() + b": "): c.fail("%s: status 1 without a message" % tool, "silent-" + tool)
        if r.rc == 0 and r.err: c.fail("%s: message %r with status 0" % (tool, r.err[:200]), "noise-" + tool)
        c.count("status %d" % r.rc)
    c.count(tool)
    return r
def make(g, kind, big=False):
    return {"acc": g.acc, "edo": g.edo, "wac": g.wac}[kind](big).text()
NUMS = [b"-1", b"0", b"-0", b"1", b"51", b"50", b"101", b"100", b"99999999999999999999999", b"-99999999999999999999", b"2147483648", b"-2147483649", b"4294967296", b"9223372036854775807", b"-9223372036854775808", b"65536", b"32768", b"x", b"", b"0x10", b"1e5", b"nan", b"+7", b"12345678901234567890123456789012345678901234567890"]
CHARS = [b"{<}", b"{<<}", b"{<>}", b"{<ZZ>}", b"{<110000>}", b"{<10FFFF>}", b"{<FFFFFFFF>}", b"{<FFFFFFFFFF>}", b"{<-1>}", b"{<D800>}", b"{<0>}", b"{<41>}", b"{<\\n>}", b"{<\\n}", b"{<\\", b"{", b"", b"{}", b"{a", b"{ab}", b"}", b"{\xe2\x97\x8c}", b"{\xe2\x97\x8c",
         b"{\xe2\x97\x8c\xcc\x81}", b"{\xe2\x97\x8ca}", b"{\xe2\x97\x8c\xf4\x90\x80\x80}", b"{\xff}", b"{\xf4\x8f\xbf\xbf}", b"{\xf4\x90\x80\x80}", b"{\xe2\x82}", b"{\xed\xa0\x80}", b"{<", b"{<4", b"{<41", b"{<1F600", b"{<10FFFF", b"{<110000", b"Basic Latin}", b"{a}-{b}", b"{\0}"]
TAILS = [b"1 Total", b" Total", b"Total", b"0", b"-5", b"51", b"50", b"11", b"> 10", b">10", b"99999999999", b"-2147483648", b"4294967297", b"9", b"8", b"101", b"", b" ", b"x" * 300, b"a\0b", b"\xff\xfe", b"\xcc\x81"]
def damage(g, b, depth=0):
    """One or more ways of spoiling a report."""
    r = g.r
    lines = b.split(b"\n")
    k = r.random()
    if k < 0.12: b = b[:r.randint(0, len(b))]
    elif k < 0.22:
        t = bytearray(b)
        for _ in range(r.choice([1, 1, 2, 10])):
            if t: t[r.randrange(len(t))] = r.choice([r.randrange(256), 0, 10, 32, 45, 48 + r.randrange(10), 60, 62, 123, 125, 255])
        b = bytes(t)
    elif k < 0.42:                                  # a number
        import re as _re
        ms = list(_re.finditer(rb"-?\d+", b))
        for m in sorted(r.sample(ms, min(len(ms), r.choice([1, 1, 2, 6]))), key=lambda m: -m.start()): b = b[:m.start()] + r.choice(NUMS) + b[m.end():]
    elif k < 0.54:                                  # a line removed, repeated, moved
        n = len(lines)
        i, j = r.randrange(n), r.randrange(n)
        x = r.random()
        if x < 0.4: del lines[i:i + r.choice([1, 1, 2, 5])]
        elif x < 0.7: lines[i:i] = [lines[j]] * r.choice([1, 1, 2, 300])
        else: lines[i], lines[j] = lines[j], lines[i]
        b = b"\n".join(lines)
    elif k < 0.62:                                  # overlong lines
        i = r.randrange(len(lines)); l = lines[i]
        n = r.choice([60, 97, 98, 99, 100, 101, 126, 127, 128, 129, 197, 198, 199, 200, 201, 255, 256, 400, 1000, 5000, 70000])
        p = r.randint(0, len(l)) if r.random() < 0.5 else len(l)
        lines[i] = l[:p] + r.choice([b"x", b" ", b"1", b"{", b"\xe2\x97\x8c", b"<", b"\0", b"9 "]) * n + l[p:]
        b = b"\n".join(lines)
    elif k < 0.8:                                   # a character or row label
        i = r.choice([j for j, l in enumerate(lines) if l[:8].strip().isdigit()] or [0])
        c3 = lines[i][:28]
        lines[i] = (lines[i][:28] if r.random() < 0.8 else b"%8s %8s   99.00   " % (r.choice(NUMS), r.choice(NUMS))) + r.choice(CHARS + TAILS)
        b = b"\n".join(lines)
    elif k < 0.86:                                  # random lines after the head
        i = r.randint(2, max(2, min(len(lines), 40)))
        lines[i:] = [r.choice([b"", b"   Count   Missed   %Right", b"     100       50    50.00   ", b"%8s %8s    50.00   " % (r.choice(NUMS), r.choice(NUMS))]) + (r.choice(CHARS + TAILS)) for _ in range(r.choice([0, 1, 5, 40]))]
        b = b"\n".join(lines)
    elif k < 0.9: b = b[:-1] if b else b
    elif k < 0.94: b = b.replace(b"\n", b"\r\n")
    elif k < 0.96: b = b + b
    elif k < 0.98: b = b.replace(b"   ", b" ", r.choice([1, 5, -1]))
    else: b = b.replace(b"\n\n", b"\n", r.choice([1, 2, -1]))
    return damage(g, b, depth + 1) if depth < 4 and r.random() < 0.3 else b
HEADS = {"acc": (b"ocreval Accuracy Report", 35), "edo": (b"ocreval Edit Operation Report", 41), "wac": (b"ocreval Word Accuracy Report", 40)}
def begins(kind, b): return b.startswith(HEADS[kind][0]) and b.split(b"\n", 2)[1:2] == [b"-" * HEADS[kind][1]]
TOOLS_ = sorted(READERS)
def damaged(c):
    g = gen.Gen(c.rng)
    tool = TOOLS_[c.index % len(TOOLS_)]
    setup(c, g)
    kind = READERS[tool][0]
    b = damage(g, make(g, kind, g.r.random() < 0.3))
    read_with(c, tool, b, refused=not begins(kind, b))
    c.note((tool, b[:4000]), begins(kind, b), sample=[tool, b[:500].decode("latin1")])
def tiny(g, kind):
    if kind == "acc":
        a = model.Acc(); a.add_char(97, 5, 1); a.add_char(0x301, 3, 0); a.add_char(10, 2, 2); a.characters = 10
        a.add_conf("{a}-{b}", 1, 1); a.add_conf("{<\\n>}-{}", 2, 0)
        a.marked[1] = a.marked[3] = 1; a.unmarked[0] = a.unmarked[3] = 2
        a.total = [2, 1, 0, 3]; a.errors = 3
        return a.text()
    if kind == "edo": return model.Edo(3, 4, {1: 2, 37: 1, 100: 5}).text()
    return model.Wac.make([b"the", b"a", b"caf\xc3\xa9", b"a", b"x" * 55], {0, 2, 3}, model.DEFAULT_STOPWORDS).text()
def truncated(c):
    """Truncation at every byte, every reader."""
    g = gen.Gen(c.rng); setup(c, g)
    tool = TOOLS_[c.index % len(TOOLS_)]; part = c.index // len(TOOLS_)
    kind = READERS[tool][0]
    b = tiny(g, kind)
    for n in range(part, len(b), 16 if c.tier == "quick" else 8):
        ok = b[:n].count(b"\n") >= 2
        read_with(c, tool, b[:n], form=n // 16, refused=n < len(HEADS[kind][0]) + 1 + HEADS[kind][1], variant="plain" if c.tier == "quick" and n % 3 else "asanrpt")
        c.count("truncation points")
    c.note(("truncated", tool, part), True)
def head(c):
    """Every byte of title and divider changed, removed or doubled."""
    g = gen.Gen(c.rng); setup(c, g); r = c.rng
    tool = TOOLS_[c.index % len(TOOLS_)]
    kind = READERS[tool][0]
    t, n = HEADS[kind]
    b = make(g, kind)
    nl = b.index(b"\n")
    for i in list(range(len(t))) + list(range(nl + 1, nl + 1 + n)):
        x = r.randrange(3)
        y = [b[:i] + bytes([b[i] ^ r.choice([1, 2, 0x20, 0x80])]) + b[i + 1:], b[:i] + b[i + 1:], b[:i] + b[i:i + 1] + b[i:]][x]
        if y == b: continue
        read_with(c, tool, y, refused=True, variant="plain")
    for y in (b"", b"\n", b[nl + 1:], b"\n" + b, b" " + b, b[:nl + 1] + b"\n" + b[nl + 1:], b[:nl + 1] + b[nl + 1 + n + 1:], t, t + b"\n" + b"-" * n + b"\n" if False else b"x", b"\xef\xbb\xbf" + b, b"x" * 10000, b"\0" * 300, b[:nl + 1] + b"-" * 300 + b"\n" + b[nl + 1 + n + 1:]):
        read_with(c, tool, y, refused=True)
    c.note(("head", tool, c.index), True)
def wrong(c):
    """Every reader with every wrong kind of file, in every position."""
    g = gen.Gen(c.rng); setup(c, g)
    others = {"acc": [make(g, "edo"), make(g, "wac")], "edo": [make(g, "acc"), make(g, "wac")], "wac": [make(g, "acc"), make(g, "edo")]}
    c.w("a", b"some text\n"); c.w("b", b"some tezt\n")
    more = [c.run("synctext", "a", "b", variant="plain").out, c.run("ngram", "a", variant="plain").out, c.run("wordfreq", "a", variant="plain").out, b"some text\n", g.header() + b"text", bytes(range(256))]
    for tool in TOOLS_:
        kind, forms = READERS[tool]
        for y in others[kind] + more:
            for f in range(len(forms)): read_with(c, tool, y, form=f, refused=True, variant="plain")
    c.note(("wrong", c.index), True)
IMPOSSIBLE = {
 "acc": [b"{<ZZ>}", b"{<110000>}", b"{<FFFFFFFF>}", b"{<7FFFFFFF>}", b"{a", b"{ab}", b"a}", b"a", b"{", b"{}", b"{\xff}", b"{\xf4\x90\x80\x80}", b"{\xe2\x82}", b"{\xed\xa0\x80}", b"{<41}", b"{<41", b"{<", b"{<\\n}", b"{<\\t>}", b"{\xe2\x97\x8ca}", b"{\xe2\x97\x8c\xcc\x81", b"{\xe2\x97\x8c\xcc\x81a}", b"{<>}", b"{<<}", b"[a]"],
 "edo": [b"0", b"-1", b"101", b"102", b"1000", b"2147483647", b"4294967297", b"-99999999999", b"-100"],
 "wac": [("stop", x) for x in (b"51", b"-1", b"1000000", b"x", b"2147483647", b"-2147483648", b"52", b"-50")] + [("dist", x) for x in (b"12", b"-1", b"100000", b"-11", b"13")] + [("phrase", x) for x in (b"9", b"-1", b"100000", b"x", b"10")] + [("non", x) for x in (b"51", b"-1", b"60", b"y", b"1000000000")]}
def impossible(c):
    """Entries that no report can hold."""
    g = gen.Gen(c.rng); setup(c, g); r = c.rng
    tool = TOOLS_[c.index % len(TOOLS_)]
    kind = READERS[tool][0]
    for bad in IMPOSSIBLE[kind]:
        lines = tiny(g, kind).split(b"\n")
        if kind == "acc":
            i = r.choice([j for j, l in enumerate(lines) if l.endswith(b"}") and b"}-{" not in l and b" {" in l]); lines.insert(i + r.randint(0, 1), b"       5        1    80.00   " + bad)
        elif kind == "edo":
            i = r.choice([j for j, l in enumerate(lines) if re.fullmatch(rb" *\d+ +\d+", l)])
            lines.insert(i + r.randint(0, 1), b"%8d %8s" % (2, bad))
        else:
            where, bad = bad
            rows = [[]]
            for j, l in enumerate(lines):
                if j < 6: continue
                if l == b"" and rows[-1]: rows.append([])
                elif re.match(rb" *\d+ +\d+ +[\d.-]+ +\S", l): rows[-1].append(j)
            rows = [x for x in rows if x]
            i = r.choice(rows[{"stop": 0, "non": 1, "dist": 2, "phrase": 3}[where]]); lines.insert(i, b"       2        1    50.00   " + bad)
        b = b"\n".join(lines)
        f = READERS[tool][1][r.randrange(len(READERS[tool][1]))]
        c.w("dam aged.rpt", b); c.rm("out")
        args = ["dam aged.rpt" if a == "R" else "G" + kind if a == "G" else a for a in f]
        c.expect_error(tool, *args, variant="asanrpt")
        if c.exists("out"): c.fail("%s wrote a report though its input has entry %r" % (tool, bad), "result-on-error-" + tool)
        c.count("impossible entries refused")
    c.note(("impossible", tool, c.index), True)
def memcheck(c):
    g = gen.Gen(c.rng); setup(c, g)
    if not shutil.which("valgrind"): return
    tool = TOOLS_[c.index % len(TOOLS_)]
    kind = READERS[tool][0]
    b = damage(g, make(g, kind))
    read_with(c, tool, b, variant="plain", prefix=["valgrind", "-q", "--error-exitcode=99", "--leak-check=no"])
    c.count("memcheck runs"); c.note((tool, b[:4000]), begins(kind, b))
FAMILIES = {"damaged": (damaged, 5000, 100000), "truncated": (truncated, 160, 80, "fixed"), "head": (head, 20, 200), "wrong": (wrong, 2, 20), "impossible": (impossible, 40, 400), "memcheck": (memcheck, 50, 1000)}
BIG = ("memcheck", "truncated")
MIN_NONTRIVIAL = 1000
