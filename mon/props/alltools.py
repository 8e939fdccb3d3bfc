"""Every tool with every kind of input and output: used by the checks of whole-process behaviour."""
from props.common import *
class Inv:
    def __init__(s, label, tool, args, out=None, stderr=False):
        s.label, s.tool, s.args, s.out, s.quiet = label, tool, args, out, stderr
        s.inputs = sorted({a for a in args if a in FILES})
FILES = ("t0", "t1", "t2", "t3", "stop", "grp", "a0", "a1", "a2", "w0", "w1", "w2", "e0", "e1", "e2")
def _list():
    L = []
    def add(label, *args, **kw): L.append(Inv(label, args[0], list(args[1:]), **kw))
    add("accuracy", "accuracy", "t0", "t1"); add("accuracy-out", "accuracy", "t0", "t1", "out", out="out")
    add("accsum", "accsum", "a0", "a1", "a2"); add("accdist", "accdist", "a0", "a1"); add("accci", "accci", "a0", "a1", "a2")
    add("groupacc", "groupacc", "grp", "a0"); add("groupacc-out", "groupacc", "grp", "a1", "out", out="out")
    add("editop", "editop", "t0", "t1"); add("editop-out", "editop", "t0", "t1", "out", out="out")
    add("editopsum", "editopsum", "e0", "e1", "e2"); add("editopcost", "editopcost", "e0"); add("editopcost-2", "editopcost", "e0", "e1")
    add("ngram", "ngram", "t0", "t1"); add("ngram-3", "ngram", "-n", "3", "t2")
    add("synctext", "synctext", "t0", "t1"); add("synctext-H", "synctext", "-H", "t0", "t1"); add("synctext-T", "synctext", "-T", "t0", "t1"); add("synctext-s", "synctext", "-s", "-i", "t0", "t1"); add("synctext-4", "synctext", "t0", "t1", "t2", "t3")
    add("vote", "vote", "t0", "t1", "t2"); add("vote-O", "vote", "-O", "-s", "1/2", "t0", "t1", "t2", "t3"); add("vote-out", "vote", "-o", "out", "t0", "t1", "t2", out="out")
    add("wordacc", "wordacc", "t0", "t1"); add("wordacc-out", "wordacc", "t0", "t1", "out", out="out"); add("wordacc-S", "wordacc", "-S", "stop", "t0", "t1")
    add("wordaccsum", "wordaccsum", "w0", "w1", "w2"); add("wordaccdist", "wordaccdist", "w0", "w1"); add("wordaccci", "wordaccci", "w0", "w1", "w2")
    add("nonstopacc", "nonstopacc", "stop", "w0"); add("wordfreq", "wordfreq", "t0"); add("wordfreq-3", "wordfreq", "t0", "t1", "t2")
    return L
ALL = _list()
BY = {i.label: i for i in ALL}
def write_all(c, words=40, variant="plain"):
    """Related texts, and genuine reports from them."""
    g = gen.Gen(c.rng); r = c.rng
    voc = [w for w in g.vocab(25) if "~" not in w and len(w) < 15] + ["the", "of", "a", "caf\u00e9", "\u0394\u03b5", "na\u00efve"]
    base = g.words(words, voc)
    def txt(ws): 
        t = g.join(ws)
        return "".join(("~" if r.random() < 0.02 else "^" + x if r.random() < 0.02 and x.strip() else x) for x in t).encode()
    c.w("t0", g.join(base).encode() + b" the end")
    for i in (1, 2, 3): c.w("t%d" % i, txt(g.mutate(base, voc, 0.1 if words <= 60 else 0.02, 1 if words <= 60 else 0)) + b" the end")
    c.w("stop", "the of a and in\nend\n")
    c.w("grp", "abcdefgthe \u00e9\n")
    for i in range(3):
        x, y = "t%d" % i, "t%d" % (i + 1)
        c.run("accuracy", "t0", y, "a%d" % i, variant=variant); (c.run("editop", "t0", y, "e%d" % i, variant=variant) if words <= 60 else c.w("e%d" % i, g.edo(False).text()))
        c.run("wordacc", "t0", y, "w%d" % i, variant=variant, quiet_err=True)
def result(c, inv, **kw):
    """All the output of a successful run."""
    if inv.out: c.rm(inv.out)
    r = c.run(inv.tool, *inv.args, **kw)
    if inv.out and r.out: c.fail("%s writes to standard output though a report file is named" % inv.label, "stdout-" + inv.tool)
    return c.r(inv.out) if inv.out else r.out
