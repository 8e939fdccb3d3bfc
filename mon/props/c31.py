"""Exhausted memory."""
from props.alltools import *
import core
RULE = ("a case is one of 31 invocations (all 17 tools) with small inputs, run once while every allocation is logged with its call stack, and then again with single allocations failing (every distinct call stack, and others at random), "
        "with all allocations failing from some point on, or with large requests failing; or larger inputs under an address space limit; each run must give the exact result with status 0, or status 1, a message and no more than a part of the right output; non-trivial: runs in which the failure ended the tool")
VARIANTS = ("plain",)
SO = None
def prepare(dirs):
    global SO
    SO = core.build_preload("memfail")
def outcome(c, inv, want, what, **kw):
    """Judges one run with failing memory; True if it ended in an error."""
    if inv.out: c.rm(inv.out)
    r = c.run(inv.tool, *inv.args, variant="plain", ok=None, **kw)
    got = r.out
    if inv.out:
        if got: c.fail("%s, %s: writes to standard output" % (inv.label, what), "memory-stdout-" + inv.tool)
        got = c.r(inv.out) if c.exists(inv.out) else b""
    if r.rc == 0:
        c.same(got, want, "%s, %s: status 0" % (inv.label, what)); c.count("survived with the exact result"); return False
    if r.rc != 1: c.fail("%s, %s: status %d, stderr %r" % (inv.label, what, r.rc, r.err[:200]), "memory-status-" + inv.tool)
    if not r.err.startswith((inv.tool + ": ").encode()): c.fail("%s, %s: no message: %r" % (inv.label, what, r.err[:200]), "memory-message-" + inv.tool)
    if not want.startswith(got): c.fail("%s, %s: status 1 and wrong output: %s" % (inv.label, what, core.diff(got, want)), "memory-output-" + inv.tool)
    c.count("reported"); return True
def allocations(c, inv):
    c.rm("log")
    want = result(c, inv, variant="plain", quiet_err=True, env={"LD_PRELOAD": SO, "MEMFAIL_LOG": os.path.join(c.dir, "log")})
    L = [l.split() for l in c.r("log").decode().split("\n") if l]
    if not L: raise core.Inconclusive("no allocation was seen")
    c.count("allocations logged", len(L))
    stacks = {}
    for n, h, size in L: stacks.setdefault(h, []).append(int(n))
    return want, len(L), stacks
def single(c):
    """Every distinct call stack fails: its first, its last and another occurrence; then any others."""
    inv = ALL[c.index % len(ALL)]; r = c.rng
    write_all(c, r.choice([3, 6, 10]) if inv.tool != "ngram" else 6)
    if c.index // len(ALL) % 3 == 2:
        # odd inputs: no text, one word, marks only
        for i in range(4): c.w("t%d" % i, r.choice([b"", b"a", b"e\xcc\x81 x", b"^~ the", "\u4e00\u30ab \u0e01".encode()]))
    if c.index // len(ALL) % 6 == 4:
        # words, and so lines of reports, of hundreds to thousands of bytes
        for i in range(4): c.w("t%d" % i, c.r("t%d" % i) + b" " + "".join("%s " % (x * k) for x, k in (("w", 90), ("wx", 170), ("w\u00e9", 330), ("wxyz", r.choice([260, 800])))).encode()[:-1] + b"z" * (i % 3))
        for i in range(3): c.run("wordacc", "t0", "t%d" % (i + 1), "w%d" % i, variant="plain", quiet_err=True)
        c.w("stop", c.r("stop") + b"w" * 900 + b"\n" + b"wxyz" * 260 + b"\n"); c.count("with long words")
    want, n, stacks = allocations(c, inv)
    at = set()
    for v in stacks.values(): at |= {v[0], v[-1], v[len(v) // 2], r.choice(v)}
    c.count("distinct call stacks", len(stacks))
    cap = 150 if c.tier == "quick" else 1500
    at = sorted(at) if len(at) <= cap else r.sample(sorted(at), cap)
    if len(at) < cap: at += r.sample(range(1, n + 1), min(n, cap // 3))
    ended = sum(outcome(c, inv, want, "allocation %d of %d fails" % (k, n), env={"LD_PRELOAD": SO, "MEMFAIL_AT": str(k)}) for k in at)
    c.count("single failures", len(at))
    c.note((inv.label, want[:2000], n), ended > 0, sample=[inv.label, "%d allocations, %d call stacks, %d failures tried, %d reported" % (n, len(stacks), len(at), ended)])
def exhausted(c):
    """From some point on nothing can be allocated, or no large blocks can."""
    inv = ALL[c.index % len(ALL)]; r = c.rng
    write_all(c, r.choice([3, 8, 20]))
    want, n, stacks = allocations(c, inv)
    sizes = sorted({int(l.split()[2]) for l in c.r("log").decode().split("\n") if l})
    ended = 0
    for k in sorted({1, 2, n, n + 1} | {r.randint(1, n) for _ in range(20)} | {r.choice(v) for v in r.sample(sorted(stacks.values()), min(20, len(stacks)))}):
        ended += outcome(c, inv, want, "nothing left after allocation %d of %d" % (k, n), env={"LD_PRELOAD": SO, "MEMFAIL_FROM": str(k)}); c.count("exhaustions")
    for s in r.sample(sizes, min(15, len(sizes))):
        if s: ended += outcome(c, inv, want, "requests of %d bytes and more fail" % s, env={"LD_PRELOAD": SO, "MEMFAIL_BIG": str(s)}); c.count("size limits")
    c.note((inv.label, want[:2000], n, "from"), ended > 0)
def limit(c):
    """Larger inputs with less and less address space."""
    inv = ALL[c.index % len(ALL)]; r = c.rng
    write_all(c, 300 if inv.tool not in ("vote", "synctext", "editop") else 60)
    if inv.inputs[0][0] == "t" and inv.tool in ("ngram", "wordfreq", "accuracy", "wordacc", "synctext") and inv.label not in ("synctext-H", "synctext-T", "synctext-4"):
        d = c.r("t0")
        for i in range(4): c.w("t%d" % i, d * (60 if inv.tool != "synctext" else 20) + b"x%d" % i)
    want = result(c, inv, variant="plain", quiet_err=True)
    ended = 0
    for kb in sorted([64, 132, 200] + r.sample(range(4, 3000, 4), 8) + r.sample(range(3000, 20000, 50), 4), reverse=True):
        ended += outcome(c, inv, want, "%d KB of address space" % kb, env={"LD_PRELOAD": SO, "MEMFAIL_SPACE": str(kb)}); c.count("address space limits")
    c.note((inv.label, "limit", ended), ended > 0)
import os
N = len(ALL)
FAMILIES = {"single": (single, 6 * N, 30 * N), "exhausted": (exhausted, 3 * N, 20 * N), "limit": (limit, 2 * N, 12 * N)}
MIN_NONTRIVIAL = 60
LEVEL_NOTE = "single failures: every distinct allocation call stack of every invocation (up to a cap), not every allocation of every input"
