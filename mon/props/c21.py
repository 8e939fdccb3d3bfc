"""Spacing never matters; nothing else is lost."""
from props.common import *
from props.c14 import expect as ngram_expect
RULE = ("a case is a tool invocation (26 in all) run on texts and on the same texts with other blanks, repeated blanks, blanks at line ends and blank lines; the results must be "
        "identical byte for byte, and the text that synctext shows must be the reference normalisation; non-trivial if the noise changed the files")
def texts(c, g, n, safe, noisy_marks=True):
    r = c.rng
    a = g.alphabet(sync_safe=safe)
    a = [x for x in a if x not in gen.BLANKS] + [32, 32, 10] + [97]
    x = g.seq(g.size(), a)
    if r.random() < 0.3: x = [ord(k) for k in g.join(g.words(r.randint(1, 30), g.vocab(10, 140))) if k != "^" and (not safe or ord(k) not in gen.SYNC_UNSAFE)]
    ts = [x if i == 0 else g.mutate(x, a) for i in range(n)]
    p = r.choice([0, 0.1]) if noisy_marks else 0
    on_blanks = r.random() < 0.6
    if on_blanks and p: p = 0.25
    out = []
    for t in ts:
        s = []
        for k in t:
            if p and (on_blanks or not u8.is_blank(k) and k != 10) and r.random() < p: s.append("^" if r.random() < 0.9 else "^^")
            s.append(chr(k))
        out.append("".join(s).encode())
    return out
def noise(c):
    g = gen.Gen(c.rng); r = c.rng
    inv = INV[c.index % len(INV)]
    label, tool, n, f, out = inv
    aux(c)
    ts = texts(c, g, n, False, tool not in ("nonstopacc",) and label != "wordacc-S")
    if r.random() < 0.1 and tool not in ("groupacc", "nonstopacc", "wordacc"): ts[-1] = g.header() + ts[-1]
    names = ["t%d" % i for i in range(n)]
    for k, t in zip(names, ts): c.w(k, t)
    want = invoke(c, inv, names)
    changed = False
    for rep in range(2):
        for k, t in zip(names, ts):
            b, h = model.skip_header(t)
            z = t[:len(t) - len(b)] + g.noise(b) if r.random() < 0.8 else t
            changed |= z != t
            c.w(k, z)
        c.same(invoke(c, inv, names), want, "%s: spacing changes the result" % label)
    c.count("results compared", 2); c.count(label)
    c.note((label, ts), changed and want, sample=[label] + [t.decode(errors="replace")[:200] for t in ts])
def shown(c):
    """The whole normalised text, as synctext and vote show it."""
    g = gen.Gen(c.rng); r = c.rng
    a = g.alphabet(sync_safe=True, any_cp=0.5) + r.sample(gen.BLANKS, 4) + [10, 10]
    d = g.marked(g.seq(g.size(), a))
    if r.random() < 0.5: d = g.noise(d)
    c.w("a", d); c.w("b", d)
    t = text(d)
    reg = model.parse_sync(c.run("synctext", "a", "b").out, ["a", "b"]) if WILD not in cps(t) else None
    if reg is not None and (reg and reg[0][1] or []) != [(p, False) for p in cps(t)]: c.fail("text shown as %r, expected %r" % (raw(reg[0][1] if reg else []), raw(t)), "normalisation")
    o = c.run("vote", "a", "b").out
    c.same(o, model.written([(p, False) for p, _ in t]), "vote of a text with itself")
    c.note(d, len(t) > 1, sample=d.decode(errors="replace")[:200]); c.count("texts shown")
def lines(c):
    """Line structure: every combination of short lines."""
    import itertools
    parts = ["", " ", "a", "a ", " a", "\u00a0", "a\u3000b", "\r", "~", " ~ "]
    i = c.index
    for k in (itertools.product([parts[i]], parts, parts) if True else ()):
        for end in ("", "\n"):
            d = ("\n".join(k) + end).encode()
            c.w("a", d); 
            t = text(d)
            c.same(c.run("vote", "a", "a").out, model.written([(p, False) for p, _ in t]), "lines %r" % (k,))
    c.count("line structures", 200); c.note(("lines", i), True)
def blanks(c):
    """Every code point: a blank or not."""
    lo = c.index * 0x1100
    cs = [p for p in range(lo, lo + 0x1100) if gen.valid(p) and p not in (94, 10)]
    d = "\n".join("a" + chr(p) + "b" for p in cs) + "\n" + "\n".join(chr(p) for p in cs)
    c.w("a", d)
    got = c.run("vote", "a", "a").out
    c.same(got, model.written([(p, False) for p, _ in text(d.encode())]), "characters from U+%04X" % lo)
    c.count("code points", len(cs)); c.note(("blanks", lo), True)
def long(c):
    """Long runs of blanks and of blank lines, long lines."""
    r = c.rng
    k = r.choice([255, 256, 1000, 4095, 4096, 5000, 65536, 70000])
    d = [b"a" + b" " * k + b"b", b"a\n" + b"\n" * k + b"b", b" " * k + b"a" + b"\t" * k, (b" " * 99 + b"\n") * (k // 100) + b"x y", b"a" * k + b" " + b"b" * k][c.index % 5]
    c.w("a", d)
    c.same(c.run("vote", "a", "a", "a" if k < 5000 else "a").out, model.written([(p, False) for p, _ in text(d)]), "long spacing") if d.count(b"a") < 2000 else None
    c.w("b", model.written(text(d)))
    for t in ("ngram", "wordfreq"): c.same(c.run(t, "a").out, c.run(t, "b").out, "long spacing in %s" % t)
    c.note(d[:50] + b"%d" % k, True)
def blocks(c):
    """Spacing across every boundary that a reader of blocks may have."""
    d = straddling(c.rng, c.index, ["a ", "a  ", " \n", "\r\n", "\n\n", "\u00a0", "\u3000\u2003", "b\n \n", "\t\u2028", "a\f\n"], c.rng.choice([70000, 140000]))
    t = text(d); c.w("a", d); n = 1 + c.index % 3
    c.same(c.run("ngram", "-n", str(n), "a").out, ngram_expect([t], n)[0], "spacing in a long text")
    c.w("b", model.written([(p, False) for p, _ in t]))
    c.same(c.run("wordfreq", "a").out, c.run("wordfreq", "b").out, "spacing in a long text"); c.count("long texts")
    c.note(("blocks", c.index), True)
FAMILIES = {"blocks": (blocks, 60, 300), "noise": (noise, 1040, 13000), "shown": (shown, 900, 10000), "lines": (lines, 10, 10, "fixed"), "blanks": (blanks, 256, 256, "fixed"), "long": (long, 20, 100)}
MIN_NONTRIVIAL = 700
