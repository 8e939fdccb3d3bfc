"""Invalid UTF-8 is refused, valid UTF-8 accepted."""
from props.common import *
from props.c14 import expect as ngram_expect
RULE = ("a case is a tool invocation (26 in all), a text position and a malformed sequence placed in an otherwise good text, which must be refused without a result, or a well-formed text of "
        "unusual code points, which must be accepted; Python's strict decoder is the oracle; non-trivial: the text holds at least one non-ASCII byte")
BAD = [b"\x80", b"\xbf", b"\xc0\x80", b"\xc1\xbf", b"\xc3", b"\xc3(", b"\xe2\x82", b"\xe2", b"\xe2(\xa1", b"\xe2\x82(", b"\xe0\x80\x80", b"\xe0\x9f\xbf", b"\xed\xa0\x80", b"\xed\xbf\xbf", b"\xed\xad\xbf",
       b"\xf0\x80\x80\x80", b"\xf0\x8f\xbf\xbf", b"\xf0\x90\x80", b"\xf0\x90", b"\xf0", b"\xf4\x90\x80\x80", b"\xf4\xbf\xbf\xbf", b"\xf5\x80\x80\x80", b"\xf7\xbf\xbf\xbf", b"\xf8\x88\x80\x80\x80",
       b"\xfc\x84\x80\x80\x80\x80", b"\xfe", b"\xff", b"\xc3\xa9\xa9", b"\xe2\x82\xac\x80", b"\xc3\xc3\xa9", b"\xf0\x9f\x98\x80\x80", b"\xff\xfe", b"a\xe2\x82\nb", b"\xc3\n", b"\xf0\x9f\n", b"^\x80", b"\x80^"]
GOOD = ["\u0080", "\u07ff", "\u0800", "\ud7ff", "\ue000", "\ufeff", "\ufffe", "\uffff", "\U00010000", "\U0010ffff", "\U0010fffe", "\x7f", "\x00", "\x01", "\u00e9", "\U0001f600", "\ufdd0", "\u200d"]
def good_text(g, n=None):
    return "".join(g.r.choice(["a", "b ", "hello ", "\n", "\u00e9", "the ", "\u4e00", "\U0001f600", ", "]) for _ in range(n or g.r.randint(0, 30)))
def bad_case(c):
    g = gen.Gen(c.rng); r = c.rng
    inv = INV[c.index % len(INV)]
    label, tool, n, f, out = inv
    aux(c)
    names = ["t%d" % i for i in range(n)]
    pos = c.index // len(INV) % n
    for k in names: c.w(k, good_text(g))
    b = r.choice(BAD) if r.random() < 0.8 else bytes(r.randint(0, 255) for _ in range(r.randint(1, 4)))
    pre, post = good_text(g).encode(), good_text(g).encode()
    k = r.random()
    if k < 0.25: post = b""
    elif k < 0.4: pre = b""
    elif k < 0.5: pre = pre + b"x" * r.choice([4094, 4095, 4096, 8191, 65535])
    if r.random() < 0.1 and tool not in ("groupacc", "nonstopacc"): pre = g.header() + pre
    d = pre + b + post
    body = model.skip_header(d)[0] if tool not in ("groupacc", "nonstopacc") and not (label == "wordacc-S" and pos == 0) else d
    try: body.decode("utf-8"); valid = True
    except UnicodeDecodeError: valid = False
    if label in ("accuracy", "accuracy-file", "editop", "editop-file", "wordacc", "wordacc-file", "wordacc-S") and d.startswith(model.TITLE) and not (label == "wordacc-S" and pos == 0): valid = valid and pos == n - 1
    c.w(names[pos], d)
    if out: c.rm(out)
    if valid:
        invoke(c, inv, names) if not d.startswith(model.TITLE) else None
        c.count("valid after all")
    else:
        c.expect_error(tool, *f(names))
        if out and c.exists(out): c.fail("%s created %s in spite of invalid input" % (label, out), "result-on-error-%s" % tool)
        c.count("refused"); c.count(label)
    c.note((label, pos, b, pre[:20], post[:20]), not valid, sample=[label, pos, b.hex()])
def sweep(c):
    """All two-byte beginnings and all lengths of truncation, through one reader."""
    hi = 0x80 + c.index
    for second in list(range(0x7C, 0xC4)) + [0x00, 0x0A, 0x41, 0xE2, 0xFF, None]:
        for tail in (b"", b"\x80", b"\xbf\x80", b"\x80\x80\x80", b"a") if second is None or second in (0x7F, 0x80, 0x8F, 0x90, 0x9F, 0xA0, 0xBF, 0xC0) else (b"\x80\x80",):
            d = b"ab" + bytes([hi]) + (bytes([second]) if second is not None else b"") + tail
            c.w("t", d)
            try: d.decode("utf-8"); ok = True
            except UnicodeDecodeError: ok = False
            if ok: c.run("ngram", "t", variant="plain"); c.count("accepted")
            else: c.expect_error("ngram", "t", variant="plain"); c.count("refused")
    c.note(("sweep", hi), True)
def good(c):
    """Well-formed text of any code point is accepted by every tool."""
    g = gen.Gen(c.rng); r = c.rng
    inv = INV[c.index % len(INV)]
    aux(c)
    names = ["t%d" % i for i in range(inv[2])]
    ts = []
    for k in names:
        t = good_text(g) + "".join(r.choice(GOOD) if r.random() < 0.5 else chr(r.choice([r.randint(0x80, 0xD7FF), r.randint(0xE000, 0x10FFFF)])) for _ in range(r.randint(1, 30)))
        ts.append(t); c.w(k, t)
    invoke(c, inv, names)
    c.count("accepted"); c.note((inv[0], ts), True, sample=[inv[0]] + ts if len(ts) < 3 else None)
def blocks(c):
    """Characters of several bytes across every boundary that a reader of blocks may have; also a bad one there."""
    r = c.rng
    units = ["\u00e9", "\u4e00", "\U0001f600", "e\u0301", "\u00e9\u4e00\U0001f600", "a\U0001f600", "\U0001f600\u4e00", "\u2028b"]
    d = straddling(r, c.index, units, r.choice([70000, 140000]))
    c.w("t", d); n = 1 + c.index % 3
    c.same(c.run("ngram", "-n", str(n), "t").out, ngram_expect([text(d)], n)[0], "a long text of characters of several bytes")
    c.count("accepted"); c.count("long texts")
    for _ in range(4):
        at = r.choice([512, 1024, 4096, 8192, 16384, 32768, 65536]) - r.randint(0, 4)
        while at > 0 and d[at] & 0xC0 == 0x80: at -= 1
        b = r.choice([q for q in BAD if b"^" not in q])
        e = d[:at] + b + r.choice([d[at:], b""])
        try: e.decode(); continue
        except UnicodeDecodeError: pass
        c.w("t", e); c.expect_error("ngram", "t"); c.count("refused")
    c.note(("blocks", c.index), True)
def all_(c):
    """Every code point is accepted and none is altered."""
    lo = c.index * 0x1100
    cs = [p for p in range(lo, lo + 0x1100) if gen.valid(p) and p not in (94, 126)]
    d = "".join("x" + chr(p) for p in cs)
    c.w("a", d)
    o = c.run("ngram", "a").out
    seen = o.split(b"\n\n\n")[0].count(b"\n") - 1
    want = len(set(cps(text(d.encode()))))
    if seen != want: c.fail("%d different characters read, expected %d, from U+%04X" % (seen, want, lo), "code-points")
    c.count("code points", len(cs)); c.note(("all", lo), True)
VARIANTS = ("asan", "plain")
FAMILIES = {"bad": (bad_case, 1560, 20000), "sweep": (sweep, 128, 128, "fixed"), "good": (good, 260, 4000), "blocks": (blocks, 96, 500), "all": (all_, 256, 256, "fixed")}
MIN_NONTRIVIAL = 500
