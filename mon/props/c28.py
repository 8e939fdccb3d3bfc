"""The library's list, table and sort keep their contracts over any history."""
from props.common import *
from props.c17 import listing
import core
RULE = ("a case is a random history of operations on four lists, or two tables, sharing a pool of items, or a set of arrays to sort, executed on the real library under AddressSanitizer by a harness (mon/harness/containers.c) "
        "that keeps a model in plain arrays and compares everything observable after the operations; non-trivial: every case (operations executed are counted under 'observed')")
ASSUMPTIONS = ["keys inserted in a table are distinct, an item is in at most one list at a time: so the tools use them"]
TECHNIQUE = "random operation histories on the real library under AddressSanitizer/UBSan with an online model comparison after the steps"
H = {}
def prepare(dirs):
    for v in ("asan", "plain"):
        H[v] = core.build_harness("containers", v)
VARIANTS = ("asan", "plain")
def run(c, what, ops, pool, variant="asan"):
    if not H[variant]: c.count("harness does not compile"); return
    seed = c.rng.randrange(1, 10**9)
    r = c.run("containers", what, str(seed), str(ops), str(pool), exe=H[variant], variant=variant, ok=(0, 1))
    if r.rc or not r.out.startswith(b"ok "): c.fail("%s %d %d %d: %s" % (what, seed, ops, pool, r.out[-300:].decode(errors="replace")), what + "-contract")
    f = r.out.split()[1:]
    for k, v in zip(f[::2], f[1::2]):
        if k not in (b"style", b"keys", b"longest"): c.count("%s %s" % (what, k.decode()), int(v))
    c.note((what, seed, ops, pool), True, sample=[what, seed, ops, pool, r.out.decode()])
def lists(c): run(c, "list", c.rng.choice([300, 2000, 8000]), c.rng.choice([1, 2, 3, 5, 8, 20, 60, 150]))
def tables(c): run(c, "table", c.rng.choice([300, 2000]), c.rng.choice([1, 2, 5, 20, 60, 200, 500]))
def sorts(c): run(c, "sort", c.rng.choice([72, 120, 200]), c.rng.choice([3, 10, 50, 300, 1500]))
def large(c):
    k = c.index % 3
    if k == 0: run(c, "list", 3000, 40000, "plain") if False else run(c, "list", 4000, 1500, "plain")
    elif k == 1: run(c, "table", 9000, 3000, "plain")
    else: run(c, "sort", 40, c.rng.choice([20000, 70000, 140000]), "plain")
def tools(c):
    """The table and the sort as wordfreq uses them: many words with the same sum of bytes."""
    r = c.rng
    base = r.choice(["abcdefg", "aabbcc", "\u00e9\u00e8abc", "zyx"])
    def word():
        k = r.random()
        if k < 0.7: x = list(base); r.shuffle(x); return "".join(x)
        if k < 0.85: return "a" * r.randint(1, 300)
        return "".join(chr(r.choice(gen.LATIN[:26] + gen.GREEK)) for _ in range(r.randint(1, 8)))
    ws = [word() for _ in range(r.choice([0, 1, 30, 500, 3000]))]
    d = "\n".join(ws).encode(); c.w("t", d)
    want = {}
    for w in model.words_of(d): want[w] = want.get(w, 0) + 1
    got = listing(c.run("wordfreq", "t").out)
    if got != want: c.fail("wordfreq lists %d words, expected %d, or other counts" % (len(got), len(want)), "wordfreq-table")
    c.count("words listed", len(got)); c.note(("tools", d[:500]), len(got) > 1)
FAMILIES = {"lists": (lists, 1000, 8000), "tables": (tables, 1000, 8000), "sorts": (sorts, 250, 5000), "tools": (tools, 150, 2000), "large": (large, 12, 120)}
BIG = ("large",)
MIN_NONTRIVIAL = 50
def finish(counts):
    return {"operations": sum(v for k, v in counts.items() if k.split()[0] in ("list", "table", "sort"))}
