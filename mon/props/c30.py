"""Large inputs: exact results, bounded stack, reasonable time."""
from props.alltools import *
import copy
import re
import resource
from props.c14 import expect as ngram_expect
from props.c15 import expect as freq_expect
from props.c12 import report, run as ci_run
from props.c13 import expect as dist_expect, TOOL as DIST
from props.c07 import expect as cost_expect
from props.c11 import expect as group_expect
from props.c20 import expect as stop_expect
RULE = ("a case is a run beyond a machine limit (65,536 characters or words, 32,767 or 65,535 files, 2^31 or 2^32 counts, eight columns, long lines, long words, sorted vocabularies of tens of thousands of keys) "
        "under a 256 KB stack, compared with a reference result; non-trivial: every case that crosses its limit")
VARIANTS = ("asan", "plain")
def small_stack(kb): return ["sh", "-c", 'ulimit -s %d; exec "$0" "$@"' % kb]
STACK = 256
def cpu_seconds():
    u = resource.getrusage(resource.RUSAGE_CHILDREN); return u.ru_utime + u.ru_stime
def no_worse(c, tool, f, g, what):
    """f (an order of the input) must not cost out of all proportion to g (another order of the same)."""
    t0 = cpu_seconds(); f(); t1 = cpu_seconds(); g(); t2 = cpu_seconds()
    if t1 - t0 > 3 and t1 - t0 > 20 * (t2 - t1):
        c.fail("%s: %s takes %.1f s, the same in random order %.2f s" % (tool, what, t1 - t0, t2 - t1), "time-" + tool)
    c.count("orders whose time was compared")
def go(c, tool, *args, cpu=None, stack=STACK, **kw):
    """A run with little stack; a crash is reported as what it is."""
    r = c.run(tool, *args, variant="plain", prefix=small_stack(stack), cpu=cpu, **kw)
    c.count("runs with %d KB of stack" % stack)
    return r
# ---- characters
def chars(c):
    """Accuracy, editop and synctext of more than 65,536 characters with isolated changes at known places."""
    g = gen.Gen(c.rng); r = c.rng
    n = [65535, 65536, 65537, 70000, 131073, 200000, 262145][c.index % 7]
    # unique neighbourhoods: changes are isolated among distinct code points of large blocks
    base = [0x4E00 + (i * 7919) % 20011 for i in range(n)]
    for i in range(59, n, 60): base[i] = 10
    if base[-1] == 10: base[-1] = 0x4E00
    cor, gn, a = [], [], model.Acc()
    places = sorted(set(r.sample(range(100, n - 100), 12)) | {65530 if n > 65600 else 200})
    last = -10; at = set()
    for p in places:
        if p - last > 8 and base[p] != 10 and base[p - 1] != 10 and base[p + 1] != 10: at.add(p); last = p
    ins = dele = 0
    for i, x in enumerate(base):
        if i in at:
            k = r.randrange(3)
            if k == 0:                                   # substitution: x read as a Latin letter
                y = r.choice(gen.LATIN[:26]); cor.append(x); gn.append(y); a.add_char(x, 1, 1)
                a.add_conf("{%s}-{%s}" % (chr(x), chr(y)), 1, 0); a.total[1] += 1; ins += 1; dele += 1
            elif k == 1:                                 # the character is lost
                cor.append(x); a.add_char(x, 1, 1); a.add_conf("{%s}-{}" % chr(x), 1, 0); a.total[0] += 1; ins += 1
            else:                                        # an extra one
                y = r.choice(gen.LATIN[:26]); cor.append(x); a.add_char(x, 1, 0); gn += [y, x]
                a.add_conf("{}-{%s}" % chr(y), 1, 0); a.total[2] += 1; dele += 1
            a.errors += 1
        else: cor.append(x); gn.append(x); a.add_char(x, 1, 0)
    a.total[3] = a.errors; a.unmarked = list(a.total); a.characters = len(cor)
    c.w("x", "".join(map(chr, cor)).encode()); c.w("y", "".join(map(chr, gn)).encode())
    c.same(go(c, "accuracy", "x", "y").out, a.text(), "accuracy of %d characters" % n)
    if c.index % 2 == 0:
        o = go(c, "synctext", "x", "y").out
        spans = model.check_regions(model.parse_sync(o, ["x", "y"]), [cor, gn])
        if model.region_cost(spans) != a.errors: c.fail("synctext of %d characters: differences of %d characters, %d are due" % (n, model.region_cost(spans), a.errors), "sync-cost")
        c.count("synchronized characters", n)
    c.count("characters", n); c.note(("chars", n, c.index), n > 65536, sample=["%d characters, %d changes" % (n, len(at))])
def oneline(c):
    """A single line, or a single word, of hundreds of thousands of characters."""
    r = c.rng
    n = [70000, 300000, 1000000][c.index % 3]
    kind = c.index // 3 % 2
    t = ["abcdefghij"[(i * i + i // 7) % 10] if kind else "ab de ghij"[i % 10] for i in range(n)]
    t[0] = t[-1] = "a"
    x = "".join(t).encode(); c.w("x", x)
    c.same(go(c, "wordfreq", "x").out, freq_expect([x])[0], "words of a line of %d characters" % n)
    if kind: c.w("y", x[:-1] + b"b")
    else: c.w("y", x.replace(b"gh", b"gk", 1))
    a = acc_head(go(c, "accuracy", "x", "y").out)
    if a != (n, 1): c.fail("accuracy of a line of %d characters with one error: %r" % (n, a), "long-line")
    w = [k for k in model.words_of(x)]
    if len(w) <= 65535:
        one = go(c, "wordacc", "x", "y").out
        h = wac_head(one)
        if h[:2] != (len(w), 1): c.fail("wordacc of a line of %d words with one error: %r" % (len(w), h), "long-line")
        c.w("r", one); c.w("e", model.Wac().text())
        c.same(go(c, "wordaccsum", "r", "e").out, one, "report with a word of %d bytes read back" % max(map(len, w)))
        c.w("s", x if kind else b"ab")
        st = model.words_of(c.r("s"), False, False)
        c.same(go(c, "nonstopacc", "s", "r").out, stop_expect(model.parse_wac(one), st)[0], "stopword of %d letters" % n)
    c.count("characters", n); c.note(("oneline", n, kind), True)
# ---- words
def words_(c):
    g = gen.Gen(c.rng); r = c.rng
    n = [65536, 65537, 100000, 200001][c.index % 4]
    m = r.choice([50, 3000])
    ws = ["w" + "".join(chr(97 + int(d)) for d in str(i * 7919 % m)) for i in range(n)]
    x = " ".join(ws).encode(); c.w("x", x)
    want = freq_expect([x])
    c.same(go(c, "wordfreq", "x").out, want[0], "%d words" % n)
    c.same(go(c, "wordfreq", "x", "x", "x").out, freq_expect([x, x, x])[0], "%d words" % (3 * n))
    # few common words among many
    k = 20000
    c.w("u", " ".join(["zz"] * (n - k) + ws[:k]).encode()); c.w("v", " ".join(ws[:k] + ["yy"] * n).encode())
    h = wac_head(go(c, "wordacc", "u", "v").out)
    if h[:2] != (n, n - k): c.fail("%d words of which %d common: %r" % (n, k, h), "misrecognized")
    c.count("words", 5 * n); c.note(("words", n, m), True)
def vocab(c):
    """Many different words or n-grams, in random, ascending or descending order: little stack, little time."""
    g = gen.Gen(c.rng); r = c.rng
    n = [30000, 20000, 40000][(c.index // 6 + c.index) % 3]
    order = ["up", "down", "random", "organ", "equal", "saw"][c.index % 6]
    ws = sorted("".join(chr(97 + int(d)) for d in "%06d" % (i * 13)) for i in range(n))
    if order == "down": ws.reverse()
    elif order == "random": r.shuffle(ws)
    elif order == "organ": ws = ws[::2] + ws[1::2][::-1]
    elif order == "saw": ws = [ws[(i * 997) % n] for i in range(n)] if n % 997 else ws
    rep = ws + (ws[:100] if order != "equal" else ws) + [x.lower() for x in g.siblings(30, (250, 256, 300, 1000))]
    x = "\n".join(rep).encode(); c.w("x", x)
    c.same(go(c, "wordfreq", "x", cpu=25).out, freq_expect([x])[0], "%d different words (%s)" % (n, order))
    if order != "random":
        sh = list(rep); r.shuffle(sh); c.w("z", "\n".join(sh))
        no_worse(c, "wordfreq", lambda: go(c, "wordfreq", "x"), lambda: go(c, "wordfreq", "z"), "%d words (%s)" % (n, order))
    wr = go(c, "wordacc", "x", "x", cpu=25, quiet_err=True) if len(rep) <= 65535 else None
    if wr:
        want = model.Wac.make([w.encode() for w in rep], set(range(len(rep))), model.DEFAULT_STOPWORDS).text()
        c.same(wr.out, want, "word accuracy of %d different words (%s)" % (n, order))
        c.w("r", wr.out); c.w("e", model.Wac().text())
        c.same(go(c, "wordaccsum", "e", "r", cpu=25).out, want, "its report read back")
        st = [w.encode() for w in ws[:2000:7]]; c.w("s", b"\n".join(st))
        c.same(go(c, "nonstopacc", "s", "r", cpu=25).out, stop_expect(model.parse_wac(want), st)[0], "stopwords of %d different words" % n)
    c.count("different keys", n); c.note(("vocab", n, order), True)
def distinct(c):
    """Six times as many different words, of usual lengths: looking one up must not mean going through all."""
    r = c.rng; n = 170000; kind = c.index % 2
    ws = set()
    while len(ws) < n: ws.add("".join(chr(97 + r.randrange(26)) for _ in range(r.randint(8, 14))))
    ws = sorted(ws); r.shuffle(ws)
    if kind == 0:
        x = "\n".join(ws).encode(); c.w("x", x)
        c.same(go(c, "wordfreq", "x", cpu=35).out, freq_expect([x])[0], "%d different words" % n)
    else:
        a = model.Wac.make([w.encode() for w in ws], set(range(0, n, 3)), set()); c.w("r", a.text()); c.w("e", model.Wac().text())
        c.same(go(c, "wordaccsum", "e", "r", cpu=35).out, a.text(), "a report of %d different words" % n)
    c.count("different keys", n); c.note(("distinct", n, kind), True)
def grams(c):
    """Many different characters and n-grams; ties, ascending or descending order."""
    r = c.rng
    n = [20000, 40000, 60000][c.index % 3]
    k = 1 + c.index // 3 % 3
    t = [0x4E00 + i if i < 20900 else 0x20000 + i for i in range(n)]
    if c.index % 2: t.reverse()
    d = "".join(map(chr, t)).encode(); c.w("x", d)
    c.same(go(c, "ngram", "-n", str(k), "x", cpu=25).out, ngram_expect([text(d)], k)[0], "%d different n-grams" % n)
    if k == 1:
        a = model.Acc(); a.characters = len(t)
        for p in t: a.add_char(p, 1, 0)
        o = go(c, "accuracy", "x", "x", cpu=25).out
        c.same(o, a.text(), "%d different characters" % n)
        c.w("r", o)
        c.same(go(c, "groupacc", "x", "r", cpu=25).out, group_expect(a, t)[0], "group of %d characters" % n)
    c.count("different keys", n); c.note(("grams", n, k), True)
def confusions(c):
    """Tens of thousands of different confusions in a report."""
    r = c.rng
    n = [8000, 20000, 40000][c.index % 3]; kind = c.index // 3 % 3
    a = model.Acc()
    for i in range(n):
        e = 1 if kind == 0 else i + 1 if kind == 1 else n - i
        a.add_conf("{%s}-{%s}" % (chr(0x4E00 + i % 20000), chr(97 + i // 20000)), e, e // 2)
    a.errors = sum(v[0] for v in a.conf.values()); a.characters = a.errors; a.add_char(97, a.errors, a.errors)
    c.w("r", a.text()); c.w("e", model.Acc().text())
    c.same(go(c, "accsum", "r", "e", cpu=25).out, a.text(), "%d confusions" % n)
    c.count("different keys", n); c.note(("confusions", n, kind), True)
# ---- files
def files(c):
    """More files than a short can count."""
    r = c.rng
    n = [32768, 66000, 65536, 32767, 65535, 40000][(c.index // 9 + c.index) % 6]
    kind = c.index % 9
    pick = [r.randrange(5) for _ in range(n)]
    args = lambda letter: [letter + str(k) for k in pick]
    num = [pick.count(k) for k in range(5)]
    if kind in (0, 1, 2):
        g = gen.Gen(r)
        tool, make = (("accsum", g.acc), ("wordaccsum", g.wac), ("editopsum", g.edo))[kind]
        rs = [make(False) for _ in range(5)]
        for k, x in enumerate(rs): c.w("r%d" % k, x.text())
        want = type(rs[0])()
        for k in pick: want.add(rs[k])
        got = go(c, tool, *args("r"), stack=4096).out
        c.same(got, want.text(), "sum of %d reports" % n)
    elif kind in (3, 4):
        rep = "acc" if kind == 3 else "wac"
        obs = [(100, 3), (57, 0), (8, 8), (1000, 17), (3, 1)]
        for k, o in enumerate(obs): c.w("r%d" % k, report(rep, *o))
        c.same(go(c, DIST[rep], *args("r"), stack=4096).out, dist_expect([obs[k] for k in pick]), "distribution over %d reports" % n)
    elif kind in (5, 6):
        rep = "acc" if kind == 5 else "wac"
        obs = [(100, 3), (57, 0), (8, 8), (1000, 17), (3, 1)]
        ci_run(c, rep, [obs[k] for k in pick])
    else:
        ds = [b"the quick", b"brown^ fox the", b"a\nb\n", b"", b"^a the a"]
        for k, d in enumerate(ds): c.w("t%d" % k, d)
        if kind == 7:
            tab = {}
            for k in range(5):
                for w in model.words_of(ds[k]): tab[w] = tab.get(w, 0) + num[k]
            from props.c15 import render
            c.same(go(c, "wordfreq", *args("t"), stack=4096).out, render(tab), "words of %d files" % n)
        else:
            nn = r.randint(1, 2)
            o = go(c, "ngram", "-n", str(nn), *args("t"), stack=4096).out
            c.same(o, ngram_expect([text(ds[k]) for k in pick], nn)[0], "n-grams of %d files" % n)
    c.count("files", n); c.note(("files", kind, n), n > 32767, sample=["%d files, kind %d" % (n, kind)])
def small_memory(kb): return ["sh", "-c", 'ulimit -v %d; exec "$0" "$@"' % kb]
def memory(c):
    """Many files in little memory: what is in use must not grow with the number of files."""
    r = c.rng; g = gen.Gen(r); kind = c.index % 8
    if kind in (0, 4):
        voc = ["".join(chr(r.choice(gen.LATIN[:26] + gen.GREEK)) for _ in range(r.randint(2, 24 if kind else 60))) for _ in range(40)]
        n = 150; d = "\n".join(" ".join(r.choice(voc) for _ in range(12)) for _ in range(1000 if kind else 600)).encode(); c.w("t", d)
        tab = {}
        for w in model.words_of(d): tab[w] = tab.get(w, 0) + n
        from props.c15 import render
        tool, args, want, kb = "wordfreq", ["t"] * n, render(tab), 64000
    elif kind in (1, 5):
        k = 1 if kind == 1 else 2; n = 90
        d = "".join(r.choice("abcd\n ^") + chr(r.choice(gen.GREEK[:5])) for _ in range(120000)).encode(); c.w("t", d)
        one = ngram_expect([text(d)], k)[0]
        want = re.sub(rb"(?m)^ *(\d+) +(\d+)   ", lambda m: b"%8d %8d   " % (n * int(m[1]), n * int(m[2])), one)
        tool, args, kb = "ngram", ["-n", str(k)] + ["t"] * n, 128000
    else:
        if kind == 2:
            a = model.Acc(); tool = "accsum"
            for i in range(3000): a.add_conf("{%s}-{}" % chr(0x4E00 + i), 1, 0); a.add_char(0x4E00 + i, 1, 1)
            a.errors = a.characters = 3000; a.total = [3000, 0, 0, 3000]; a.unmarked = list(a.total)
        elif kind == 3:
            ws = [(chr(0x4E00 + i // 60) + chr(97 + i % 26) * (5 + i % 60)).encode() for i in range(3000)]
            a = model.Wac.make(ws, range(0, 3000, 2), set(ws[:1000])); tool = "wordaccsum"
        elif kind == 6: a = g.edo(False); tool = "editopsum"
        else: a = g.acc(False); tool = "accsum"
        c.w("r", a.text()); want = a
        p, n = 0, 1
        while n < (1024 if kind < 6 else 16384): x = copy.deepcopy(want); want.add(x); n *= 2
        want = want.text(); args = ["r"] * n; kb = 128000
    got = c.run(tool, *args, variant="plain", prefix=small_memory(kb), cpu=60).out
    c.same(got, want, "%s of %d files in %d MB" % (tool, n, kb // 1000))
    c.count("runs with %d MB of memory" % (kb // 1000)); c.count("files in little memory", n); c.note(("memory", kind, n), True)
# ---- counts
HUGE = [10**7, 10**8 - 1, 10**8, 10**9, 2**31 - 1, 2**31, 2**31 + 1, 2**32 - 1, 2**32, 2**32 + 1, 10**10, 10**11, 2**40, 10**13 + 7, 2**52]
def counts(c):
    """Counts beyond 32 bits and eight columns, in every report and every tool that reads one."""
    g = gen.Gen(c.rng); r = c.rng
    h = lambda: r.choice(HUGE) + r.randint(-1, 1) if r.random() < 0.8 else r.randint(1, 99)
    a = model.Acc()
    for p in r.sample(range(0x21, 0x5E), 12) + r.sample(range(0x400, 0x500), 5):
        n = h(); a.add_char(p, n, r.choice([0, n, r.randint(0, n)]))
    a.characters = sum(v[0] for v in a.chars.values())
    for i in range(12):
        e = h(); a.add_conf("{%c}-{%c}" % (97 + i, 110 + i % 9), e, r.choice([0, e, r.randint(0, e)]))
    # ties and near ties that differ in high bits only
    e = h(); 
    for i, d in enumerate((0, 2**31, 2**32, 2**33, 1)): a.add_conf("{A%d}-{B}" % i, e + d, e // 2)
    for i, d in enumerate((0, 2**31, 2**32, 2**33, 1)): a.add_conf("{C%d}-{D}" % i, e + 2**34, (e + d) // 4)
    a.errors = sum(v[0] for v in a.conf.values())
    a.marked = [h() for _ in range(4)]; a.unmarked = [h() for _ in range(4)]; a.total = [x + y for x, y in zip(a.marked, a.unmarked)]
    a.rejects, a.suspects, a.false = h(), h(), h()
    c.w("a", a.text())
    two = model.Acc(); two.add(a); two.add(a)
    c.same(c.run("accsum", "a", "a").out, two.text(), "sum of huge counts")
    grp = list(a.chars); c.w("g", "".join(map(chr, grp)).encode())
    c.same(c.run("groupacc", "g", "a").out, group_expect(a, [p for p in cps(text(c.r("g"), header=False))])[0], "group of huge counts")
    w = model.Wac()
    for i in range(12):
        n = h(); m = r.choice([0, n, r.randint(0, n)]); wd = b"the" if i == 0 else b"of" if i == 1 else b"w" + bytes([97 + i]) * i
        st = wd in (b"the", b"of")
        w._inc(w.stop if st else w.non, len(wd), n, m); (w.stop_terms if st else w.non_terms)[wd] = [n, m]
        w.total[0] += n; w.total[1] += m
        if not st: w._inc(w.distinct, 11, 1, int(n == m))
    for k in range(1, 9): n = h(); w.phrase[k] = [n, r.randint(0, n)]
    c.w("w", w.text())
    tw = model.Wac(); tw.add(w); tw.add(w)
    c.same(c.run("wordaccsum", "w", "w").out, tw.text(), "sum of huge word counts")
    st = list(w.non_terms)[:5] + [b"the"]; c.w("s", b"\n".join(st))
    c.same(c.run("nonstopacc", "s", "w").out, stop_expect(w, st)[0], "accuracies of huge word counts")
    e = model.Edo(h(), h(), {k: h() // 1000 + 1 for k in r.sample(range(1, 101), 9)})
    f = model.Edo(h(), h(), {k: h() // 1000 + 1 for k in r.sample(range(1, 101), 9)})
    c.w("e", e.text()); c.w("f", f.text())
    c.same(c.run("editopcost", "e", "f").out, cost_expect(e, f), "costs of huge counts")
    import copy
    c.same(c.run("editopsum", "e", "f").out, copy.deepcopy(e).add(f).text(), "sum of huge edit counts")
    c.count("huge counts", 60); c.note(("counts", a.text()[:3000]), True, sample=[a.text()[:400].decode()])
def votes(c):
    """Larger votes and multi-file synchronizations: little stack."""
    r = c.rng; g = gen.Gen(r)
    k = [3, 5, 9][c.index % 3]
    n = [1500, 900, 400][c.index % 3]
    base = [0x4E00 + (i * 577) % 5003 for i in range(n)]
    ts = []
    for v in range(k):
        t = list(base)
        for p in range(20 + 40 * v, n - 10, 40 * (k + 1)): t[p] = 97 + v       # one voter is wrong at a time
        ts.append(t); c.w("t%d" % v, "".join(map(chr, t)).encode())
    want = "".join(map(chr, base)).encode() + b"\n"
    got = go(c, "vote", *["t%d" % v for v in range(k)]).out
    if k > 2: c.same(got.rstrip(b"\n"), want.rstrip(b"\n"), "vote of %d texts of %d characters" % (k, n))
    c.count("characters", n * k); c.note(("votes", k, n), True)
def medians(c):
    """vote -O where one character more or less among 2^24 decides who is closest to the median."""
    r = c.rng
    base = [2**24, 2**24 + 2][c.index % 2]
    # occurrences of the pair aa; the two in the middle are equal and odd, one voter is two less, another one more
    n = {"A": base - 1, "B": base + 1, "C": base + 1, "D": base + 2}
    # the third voter decides how the text begins
    for k in n: c.w(k, (b"b" if k in "AB" else b"c") + b"a" * (n[k] + 1))
    order = r.sample(sorted(n), 4)
    got = go(c, "vote", "-O", *order, cpu=400).out
    if got[:1] != b"c" or got.count(b"a") != n["B"] + 1 or len(got) != n["B"] + 2: c.fail("vote -O %s writes %r... of %d characters, not the vote of B, C and D" % (order, got[:20], len(got)), "selection")
    c.count("characters", sum(n.values())); c.note(("medians", base), True)
def millions(c):
    """Texts beyond 2^20 (in part of the cases 2^24) characters: a short text over and over, whose results are those of the short one many times."""
    r = c.rng; kind = ["wordfreq", "ngram", "accuracy", "wordacc", "align", "spaces"][c.index % 6]
    n = (1 << 20) + r.randint(1, 9000) if c.index % 7 != 6 else (1 << 24) + r.randint(1, 9000)
    unit = "".join(r.choice("abcdefgh") + r.choice("\u0430\u0431\u03b1") for _ in range(r.randint(20, 60)))
    unit = unit[:9] + " " + unit[9:17] + "\n" + unit[17:] + " "
    k = n // len(unit) + 1
    c.w("x", unit.encode() * k)
    ws = unit.split()
    if kind == "wordfreq":
        one = {w.encode(): ws.count(w) * k for w in set(ws)}
        c.w("y", b"q\n")
        def want(times, extra):
            d = {w: q * times for w, q in one.items()}
            if extra: d[b"q"] = extra
            t = sum(d.values())
            part = lambda ks: b"   Count\n" + b"".join(b"%8d   %s\n" % (d[w], w) for w in ks) + b"%8d   Total\n" % t
            return part(sorted(d)) + b"\n\n" + part(sorted(d, key=lambda w: (-d[w], w)))
        c.same(go(c, "wordfreq", "x").out, want(1, 0), "words of %d characters" % n)
        c.same(go(c, "wordfreq", "x", "y", "x", "y", "y").out, want(2, 3), "words of two texts of %d characters and of small ones" % n)
    elif kind == "ngram":
        m = r.choice([1, 2, 3])
        body = unit[:-1]                               # the blank at the end is dropped
        d = {}
        for i in range(len(unit)): g_ = (unit + unit)[i:i + m]; d[g_] = d.get(g_, 0) + k - 2
        last = unit + body
        for i in range(len(last) - m + 1): g_ = last[i:i + m]; d[g_] = d.get(g_, 0) + 1
        o = go(c, "ngram", "-n", str(m), "x", "x").out
        got = {}
        for line in o.split(b"\n\n\n")[0].split(b"\n")[1:]:
            f = line.split(None, 2)
            if len(f) == 3 and f[2].startswith(b"{"): got[f[2][1:-1].replace(b"<\\n>", b"\n").decode()] = int(f[0])
        if got != {g_: 2 * q for g_, q in d.items() if q}: c.fail("%d-grams of two texts of %d characters: %r" % (m, n, sorted(got.items())[:5]), "ngrams")
    elif kind == "accuracy":
        t = unit * k; at = sorted(r.sample(range(20, len(t) - 20), 5)); y = list(t); e = 0; last = -5
        for p in at:
            if p - last > 3 and t[p] not in " \n": y[p] = "Z"; e += 1; last = p
        c.w("y", "".join(y).encode())
        o = go(c, "accuracy", "x", "y", "r", cpu=120).out
        a = acc_head(c.r("r"))
        if a != (len(t) - 1, e): c.fail("accuracy of %d characters with %d changes: %r" % (len(t) - 1, e, a), "errors")
        c.w("e", model.Acc().text()); c.same(go(c, "accsum", "e", "r").out, c.r("r"), "its report read back")
    elif kind == "wordacc":
        # 60,000 words at most are common to both texts
        c.w("y", " ".join(ws * 3).encode()); c.w("x", ("other \u00e9\u00e8 things " * (n // 16)).encode() + " ".join(ws * 3).encode())
        h = wac_head(go(c, "wordacc", "x", "y", cpu=120).out); w = 3 * (n // 16) + 3 * len(ws)
        if h[:2] != (w, w - 3 * len(ws)): c.fail("%d words of which %d are common: %r" % (w, 3 * len(ws), h), "misrecognized")
    elif kind == "align":
        t = (unit * k).rstrip()
        o = go(c, "synctext", "-T", "x", "x", cpu=120).out
        line = b"=" * 79 + b"\n"
        c.same(o, (line + b"\n{1:" + t.encode() + b"}\n") * 2 + line, "-T of a text of %d characters against itself" % n)
        c.same(go(c, "vote", "x", "x", "x", cpu=120).out, t.encode(), "vote of three texts of %d characters" % n)
        o = go(c, "synctext", "-H", "x", "x", "x", cpu=120).out
        c.same(o, line + b"\n" + t.encode() + b"\n" + line, "-H of three texts of %d characters" % n)
    else:
        # all but a word is space
        c.w("x", b"a" + r.choice([b" ", b"\t", "\u3000".encode(), b" \n"]) * (n if n < 1 << 22 else n // 4) + b"b")
        c.w("y", b"a\nb" if b"\n" in c.r("x")[:4] else b"a b")
        c.same(go(c, "ngram", "x").out, go(c, "ngram", "y").out, "%d spaces" % n)
        c.same(go(c, "wordfreq", "x").out, go(c, "wordfreq", "y").out, "%d spaces" % n)
        c.same(go(c, "accuracy", "x", "y").out, go(c, "accuracy", "y", "y").out, "%d spaces" % n)
    c.count("characters, millions of them", n); c.note(("millions", kind, n), True, sample=[kind, n])
def stack(c):
    """Every tool with inputs of some size and hardly any stack."""
    inv = ALL[c.index % len(ALL)]
    write_all(c, 300 if inv.tool not in ("vote", "synctext", "editop") else 60)
    want = result(c, inv, variant="plain", quiet_err=True)
    got = result(c, inv, variant="plain", prefix=small_stack(128), quiet_err=True)
    c.same(got, want, "%s with a stack of 128 KB" % inv.label)
    c.count("runs with 128 KB of stack"); c.note((inv.label, want[:3000]), True)
FAMILIES = {"chars": (chars, 14, 70), "oneline": (oneline, 6, 12), "words": (words_, 3, 24), "vocab": (vocab, 8, 72), "distinct": (distinct, 2, 8), "grams": (grams, 9, 36), "confusions": (confusions, 9, 18), "files": (files, 27, 108), "memory": (memory, 8, 64), "counts": (counts, 300, 6000), "votes": (votes, 24, 40), "medians": (medians, 1, 2), "millions": (millions, 7, 42), "stack": (stack, len(ALL), 5 * len(ALL))}
BIG = ("distinct", "oneline", "chars", "words", "vocab", "files", "grams", "votes", "confusions", "medians", "millions", "memory")
MIN_NONTRIVIAL = 100
