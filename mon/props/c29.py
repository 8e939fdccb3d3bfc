"""Every character is displayed unambiguously and read back from reports."""
from props.common import *
from props.c11 import expect as group_expect
from props.c14 import expect as ngram_expect
RULE = ("a case is a range of code points (together the families cover all of U+0000..U+10FFFF except surrogates, ^ and ~) put through accuracy (counted, missed, confused), accsum, groupacc, accdist, ngram, synctext and vote; "
        "every output is compared byte by byte with what an independent rendering of each character implies, and the report read back must give the same characters, classes and counts; non-trivial: ranges with assigned or special characters")
def chunk(i, size=0x1100): return [p for p in range(i * size, (i + 1) * size) if gen.valid(p) and p not in (94, 126, 10) and not u8.is_blank(p)]
def sig(c, cs): c.note((c.family, c.index), bool(cs), sample=["U+%04X..U+%04X" % (cs[0], cs[-1])] if cs else None); c.count("code points", len(cs))
def counted(c):
    """Every character counted twice or three times, every third one missed once; read back in sums and groups."""
    cs = chunk(c.index)
    if not cs: c.count("ranges without text characters"); return
    r = c.rng; off = (c.index + c.seed) % 29
    a = model.Acc(); cor, gn = [], []
    for i, p in enumerate(cs):
        n = 1 + (i % 2)
        miss = 1 if i % 29 == off else 0
        # an x on each side keeps the alignment unique; insertion of the missed character
        for k in range(n):
            cor += [120, p, 121] if False else [p]
            if not (miss and k == 0): gn += [p]
        a.add_char(p, n, miss)
        if miss: a.add_conf("{%s}-{}" % model.conf_side([(p, False)]), 1, 0); a.errors += 1
    a.characters = len(cor)
    # neighbours are different characters, so that the only optimal alignment deletes one of p
    a.unmarked = [a.errors, 0, 0, a.errors]; a.total = list(a.unmarked)
    c.w("x", "".join(map(chr, cor)).encode()); c.w("y", "".join(map(chr, gn)).encode())
    one = c.run("accuracy", "x", "y").out
    c.same(one, a.text(), "report of U+%04X..U+%04X" % (cs[0], cs[-1]))
    c.w("r", one)
    two = model.Acc(); two.add(a); two.add(a)
    c.w("e", model.Acc().text())
    c.same(c.run("accsum", "r", "r").out, two.text(), "the report read twice")
    c.same(c.run("accsum", "e", "r").out, a.text(), "the report read back")
    grp = cs[:]; r.shuffle(grp)
    c.w("g", "".join(map(chr, grp)).encode())
    c.same(c.run("groupacc", "g", "r").out, group_expect(a, grp)[0], "group of U+%04X.." % cs[0])
    sig(c, cs)
def confused(c):
    """Every character taken for another one, both sides of the confusion list."""
    cs = chunk(c.index, 0x110)
    if len(cs) < 3: return
    # ranges of one unassigned or private category only: one in eight, another eighth for every seed
    if c.tier == "quick" and (c.index + c.seed) % 8 and {u8.cat(p) for p in cs} <= {"Cn", "Co"}: c.count("ranges left to other seeds"); return
    # ranges of a single category: one in three
    if c.tier == "quick" and (c.index + c.seed) % 3 and len({u8.cat(p) for p in cs}) == 1: c.count("ranges left to other seeds"); return
    r = c.rng
    a = model.Acc(); cor, gn = [], []
    for i in range(0, len(cs) - 1, 2):
        p, q = cs[i], cs[i + 1]
        cor += [p, 120, 122]; gn += [q, 120, 122]
        a.add_char(p, 1, 1); a.add_char(120, 1, 0); a.add_char(122, 1, 0)
        a.add_conf("{%s}-{%s}" % (model.conf_side([(p, False)]), model.conf_side([(q, False)])), 1, 0); a.errors += 1
    if 120 in cs or 122 in cs: return
    a.characters = len(cor); a.unmarked = [0, a.errors, 0, a.errors]; a.total = list(a.unmarked)
    c.w("x", "".join(map(chr, cor)).encode()); c.w("y", "".join(map(chr, gn)).encode())
    c.w("r", c.run("accuracy", "x", "y").out)
    c.same(c.r("r"), a.text(), "confusions of U+%04X.." % cs[0])
    c.w("e", model.Acc().text())
    c.same(c.run("accsum", "r", "e").out, a.text(), "confusions read back")
    sig(c, cs)
def marked(c):
    """Suspect and plain, n-grams, synctext and vote."""
    cs = chunk(c.index)
    if not cs: return
    t = "".join("^" * (i % 2) + chr(p) for i, p in enumerate(cs)).encode(); c.w("t", t)
    n = 1 + (c.index + c.seed) % 3
    c.same(c.run("ngram", "-n", str(n), "t").out, ngram_expect([text(t)], n)[0], "n-grams of U+%04X.." % cs[0])
    want = "".join(u8.render(p, i % 2 == 1) for i, p in enumerate(cs)).encode()
    c.same(c.run("vote", "-s", "9/9", "-w", "9/9", "t", "t").out.replace(b"^", b""), model.written([(p, False) for p in cs]), "vote of U+%04X.." % cs[0])
    # the last character of a text decides whether a newline follows; put the text between others
    for opts in ([], ["-s"], ["-T"], ["-H", "-s"]):
        o = c.run("synctext", *opts, "t", "t").out
        w = want if "-s" in opts else want.replace(b"^", b"")
        if opts == ["-T"]: w = b"{1:" + w + b"}"
        h = b"=" * 79 + b"\n\n"
        if not o.startswith(h + w): c.fail("synctext %s shows %s" % (opts, diff_at(o, h + w)), "synctext-display")
    sig(c, cs)
def diff_at(o, w):
    i = next((i for i, (x, y) in enumerate(zip(o, w)) if x != y), min(len(o), len(w)))
    return "%r where %r is due (byte %d)" % (o[max(0, i - 8):i + 20], w[max(0, i - 8):i + 20], i)
def synth(c):
    """Reports with any code points (also surrogates' neighbours, newline, blank), any counts: read back exactly."""
    g = gen.Gen(c.rng); r = c.rng
    a = model.Acc()
    for _ in range(r.choice([1, 5, 40, 300])):
        p = r.choice([r.randint(0, 0x10FFFF), r.randint(0, 0xFFFF), r.randint(0, 0x3FF), r.choice(gen.MARKS + gen.CTRL + gen.BLANKS + [60, 62, 92, 123, 125, 10, 32, 0x25CC])])
        if not gen.valid(p) or p in (94, 126) or p in a.chars: continue
        n = g.num() + 1; a.add_char(p, n, r.randint(0, n))
    a.characters = sum(v[0] for v in a.chars.values())
    for _ in range(r.choice([0, 2, 20])):
        side = lambda: model.conf_side([(r.choice([p for p in (r.randint(0, 0x10FFFF), r.randint(32, 126), r.choice(gen.MARKS), r.choice(gen.CTRL)) if gen.valid(p)] or [97]), False) for _ in range(r.randint(0, 7))])
        e = g.num() + 1; a.add_conf("{%s}-{%s}" % (side(), side()), e, r.randint(0, e))
    a.errors = sum(v[0] for v in a.conf.values())
    c.w("r", a.text()); c.w("e", model.Acc().text())
    c.same(c.run("accsum", *r.choice([["r", "e"], ["e", "r"]])).out, a.text(), "a report read back")
    grp = [p for p in a.chars if p not in (94, 126)]; r.shuffle(grp)
    c.w("g", "".join(map(chr, grp)).encode())
    grp2 = [p for p in cps(text(c.r("g"), header=False))]
    c.same(c.run("groupacc", "g", "r").out, group_expect(a, grp2)[0], "group from a report read back")
    c.note(a.text()[:3000], len(a.chars) > 1); c.count("characters read back", len(a.chars))
def forms(c):
    """Alternative spellings a reader must accept: the hexadecimal form of any width that the writer uses, newline, < itself."""
    a = model.Acc()
    for p in (0, 1, 10, 31, 32, 60, 62, 123, 125, 127, 128, 159, 160, 173, 255, 256, 0x378, 0x25CC, 0x301, 0x1D165, 0xE000, 0xFEFF, 0xFFFD, 0xFFFE, 0xFFFF, 0x10000, 0xE0001, 0xE0100, 0xF0000, 0x10FFFD, 0x10FFFE, 0x10FFFF): a.add_char(p, 3, 1)
    a.characters = sum(v[0] for v in a.chars.values())
    c.w("r", a.text()); c.w("e", model.Acc().text())
    c.same(c.run("accsum", "r", "e").out, a.text(), "special characters")
    c.note("forms", True); c.count("characters read back", len(a.chars))
def twins(c):
    """Texts that look alike when displayed are still told apart: escapes typed out in a text against the characters they stand for."""
    g = gen.Gen(c.rng); r = c.rng
    p = r.choice([0, 1, 7, 27, 0x7F, 0x85, 0xAD, 0x200B, 0xFFFF, 0x10FFFF, 0xE0001, 10, 0x301, 0x378])
    typed = u8.render(p, fake=True)
    x = "a" + chr(p) + "b"; y = "a" + typed + "b"
    c.w("x", x.encode()); c.w("y", y.encode())
    for s, t in (("x", "y"), ("y", "x")):
        o = c.run("accuracy", s, t).out
        reg = [("m", [(97, False)]), ("d", ([(q, False) for q in map(ord, (x if s == "x" else y)[1:-1])], [(q, False) for q in map(ord, (y if s == "x" else x)[1:-1])])), ("m", [(98, False)])]
        n = max(len(x), len(y)) - 2
        want_errors = model.lev(list(map(ord, x if s == "x" else y)), list(map(ord, y if s == "x" else x)))
        if acc_head(o)[1] != want_errors: c.fail("%r and %r: %d errors, expected %d" % (x, y, acc_head(o)[1], want_errors), "twins")
    ca = model.parse_acc(c.run("accuracy", "y", "y").out)
    if {k: v[0] for k, v in ca.chars.items()} != {q: y.count(chr(q)) for q in set(map(ord, y))}: c.fail("characters of %r reported as %r" % (y, ca.chars), "twins-count")
    c.note(("twins", p), True); c.count("twins")
FAMILIES = {"counted": (counted, 256, 256, "fixed"), "confused": (confused, 4096, 4096, "fixed"), "marked": (marked, 256, 256, "fixed"), "synth": (synth, 500, 12000), "forms": (forms, 1, 1, "fixed"), "twins": (twins, 28, 100)}
BIG = ("counted", "confused")
MIN_NONTRIVIAL = 300
