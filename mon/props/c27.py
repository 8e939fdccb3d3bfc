"""Results depend only on the contents of the inputs."""
from props.alltools import *
from props.c25 import strace_works
import os, subprocess, threading, shutil
RULE = ("a case is an invocation (31, covering all 17 tools) run under a variation that must not matter: repetition, locale, environment, heap contents (MALLOC_PERTURB_), working directory, file names, links, pipes delivering in pieces, standard input, address layout, other instances; "
        "outputs are compared byte by byte, inputs and directory before and after, and under strace every file created, written or removed; non-trivial: a comparison of a variation with the base result")
VARIANTS = ("plain", "asan")
NAMES_SHOWN = ("synctext", "synctext-H", "synctext-s", "synctext-4")
ENVS = [{"LC_ALL": "C"}, {"LC_ALL": "POSIX"}, {"LC_ALL": "tr_TR.UTF-8", "LANG": "tr_TR.UTF-8"}, {"LC_ALL": "de_DE.ISO-8859-1"}, {"LC_ALL": "", "LANG": ""}, {"LC_NUMERIC": "de_DE.UTF-8", "LC_ALL": ""}, {"TZ": "Asia/Tokyo"}, {"POSIXLY_CORRECT": "1"}, {"HOME": "/nonexistent", "TMPDIR": "/nonexistent"},
        {"COLUMNS": "20", "LINES": "3", "TERM": "dumb"}, {"MALLOC_PERTURB_": "85"}, {"MALLOC_PERTURB_": "255"}, {"MALLOC_PERTURB_": "1"}, {"MALLOC_ARENA_MAX": "1", "MALLOC_MMAP_THRESHOLD_": "4096", "MALLOC_TOP_PAD_": "0"}, {"STOPWORDS": "x", "OCREVAL": "1", "DEBUG": "1"}, {"LC_ALL": "en_US.UTF-8", "LANGUAGE": "fr"}, {"BIG" + str(i): "x" * 1000 for i in range(40)}]
SPY, LOCALES = [], {}
def prepare(dirs):
    import core
    SPY[:] = [core.build_preload("spy")]
    LOCALES.update(core.build_locales())
def locales(c):
    """Locales with other decimal points, other letters, other encodings, other orders."""
    if not LOCALES: c.count("no locales can be made"); return
    inv = ALL[c.index % len(ALL)]
    write_all(c, c.rng.choice([5, 30, 40]))
    want = result(c, inv, variant="plain", quiet_err=True)
    for n, d in LOCALES.items():
        check(c, inv, result(c, inv, variant="plain", env={"LC_ALL": n, "LANG": n, "LOCPATH": d}, quiet_err=True), want, "locale: " + n)
    # what the tools say of themselves
    us = lambda **kw: (lambda q: q.out + q.err)(c.run(inv.tool, "-h", variant="plain", ok=None, **kw))
    w = us()
    for n, d in LOCALES.items(): c.same(us(env={"LC_ALL": n, "LOCPATH": d}), w, "%s -h in the locale %s" % (inv.tool, n))
def spy(c):
    """Environment variables, clocks, random numbers, identities: whatever the tool asks, it is told something else."""
    inv = ALL[c.index % len(ALL)]
    write_all(c, c.rng.choice([5, 30, 40]))
    want = result(c, inv, variant="plain", quiet_err=True)
    logp = os.path.join(c.dir, "spylog")
    for i in range(4):
        e = {"LD_PRELOAD": SPY[0], "SPY": str(c.rng.randrange(1 << 30)), "SPY_LOG": logp}
        check(c, inv, result(c, inv, variant="plain", env=e, quiet_err=True), want, "surroundings: other answers")
        for args in ((), ("-h",), ("-Z",), ("missing", "missing", "missing"), ("-h", "x"), (inv.inputs[0], "-s")):
            a, b = (c.run(inv.tool, *args, variant="plain", ok=None, env=x) for x in (None, e))
            if (a.rc, a.out, a.err) != (b.rc, b.out, b.err): c.fail("%s %s: status, output and message %r, with other answers from its surroundings %r" % (inv.tool, " ".join(args), (a.rc, a.out[:200], a.err[:200]), (b.rc, b.out[:200], b.err[:200])), "surroundings-" + inv.tool)
            c.count("comparisons")
    if os.path.exists(logp):
        for l in c.r("spylog").decode(errors="replace").split("\n"):
            if l: c.count("asked: " + l)
def shot(c): return {n: (c.r(n), os.stat(os.path.join(c.dir, n)).st_mtime_ns) for n in os.listdir(c.dir) if os.path.isfile(os.path.join(c.dir, n)) and n != "out"}
def unchanged(c, before, what, inv):
    now = shot(c)
    if now != before: c.fail("%s: %s" % (what, "files changed or left: %s" % sorted(k for k in set(now) | set(before) if now.get(k) != before.get(k))), "files-" + inv.tool)
def check(c, inv, got, want, what):
    c.same(got, want, "%s %s" % (inv.label, what)); c.count(what.split(":")[0]); c.count("comparisons")
    c.note((inv.label, what, want[:3000]), True, sample=[inv.label, what])
def env(c):
    inv = ALL[c.index % len(ALL)]
    write_all(c, c.rng.choice([5, 30, 40]))
    before = shot(c)
    want = result(c, inv, variant="plain", quiet_err=True)
    check(c, inv, result(c, inv, variant="asan", quiet_err=True), want, "other build")
    for e in ENVS: check(c, inv, result(c, inv, variant="plain", env=e, quiet_err=True), want, "environment: %s" % sorted(e)[:2])
    for i in range(2): check(c, inv, result(c, inv, variant="plain", quiet_err=True), want, "repetition")
    unchanged(c, before, inv.label, inv)
    with open(os.path.join(c.dir, "t1"), "rb") as f: check(c, inv, result(c, inv, variant="plain", stdin=f, quiet_err=True), want, "standard input: a file")
    check(c, inv, result(c, inv, variant="plain", prefix=["sh", "-c", 'exec "$0" "$@" <&-'], quiet_err=True), want, "standard input: closed")
    check(c, inv, result(c, inv, variant="plain", prefix=["setarch", "-R"], quiet_err=True), want, "address layout")
    check(c, inv, result(c, inv, variant="plain", prefix=["env", "-i"], quiet_err=True), want, "environment: empty")
    check(c, inv, result(c, inv, variant="plain", prefix=["sh", "-c", 'umask 077; exec "$0" "$@"'], quiet_err=True), want, "environment: umask")
    unchanged(c, before, inv.label, inv)
def like(c, inv, shown_names):
    """Result with ordinary files of the same contents whose names are as long, and a function that puts these names into another result."""
    plain, k = [], 0
    for n in shown_names:
        k += 1
        L = len(n.encode())
        if L > 200 or L < 2: return None
        plain.append("Q" * (L - 1) + chr(64 + k))
    seq = [a for a in inv.args if a in FILES]
    for a, p in zip(seq, plain): shutil.copy(os.path.join(c.dir, a), os.path.join(c.dir, p))
    it = iter(plain)
    w = c.run(inv.tool, *[next(it) if a in FILES else a for a in inv.args], variant="plain").out
    for p in set(plain): c.rm(p)
    def put(got):
        for n, p in sorted(zip(shown_names, plain), key=lambda x: -len(x[0])): got = got.replace(n.encode(), p.encode())
        return got
    return w, put
def names(c):
    """Other names, directories and links."""
    inv = ALL[c.index % len(ALL)]; r = c.rng
    write_all(c, 25)
    want = result(c, inv, variant="plain", quiet_err=True)
    os.mkdir(os.path.join(c.dir, "sub"))
    def rename(f): return [f(a) if a in FILES else a for a in inv.args]
    mapping = {n: "sub/" + x for n, x in zip(inv.inputs, r.sample(["a b", "caf\u00e9", "x" * 200, "%s%n", "1.txt", "new\nline", "~", "tab\t", "accuracy", "{1}", "'q'", "..x"], len(inv.inputs)))}
    for n, m in mapping.items(): shutil.copy(os.path.join(c.dir, n), os.path.join(c.dir, m))
    for n in inv.inputs: os.symlink("../" + n, os.path.join(c.dir, "sub", "link-" + n)); os.link(os.path.join(c.dir, n), os.path.join(c.dir, "sub", "hard-" + n))
    shown = inv.label in NAMES_SHOWN
    fs = [("dot names", lambda a: "./" + a), ("absolute names", lambda a: os.path.join(c.dir, a)), ("symbolic links", lambda a: "sub/link-" + a), ("hard links", lambda a: "sub/hard-" + a), ("odd names", lambda a: mapping[a]), ("long paths", lambda a: "sub/../" * 300 + a)]
    for what, f in fs:
        if inv.out: c.rm("out")
        q = c.run(inv.tool, *rename(f), variant="plain", quiet_err=True)
        got = c.r("out") if inv.out else q.out
        w = want
        if shown:
            # the names are displayed, and their lengths indent what follows: compare with plain names of the same lengths
            w = like(c, inv, [f(a) for a in inv.args if a in FILES])
            if w is None: continue
            got = w[1](got); w = w[0]
        check(c, inv, got, w, "names: " + what)
    # from another directory
    if inv.out: c.rm("out")
    q = c.run(inv.tool, *["../" + a if a in FILES or a == "out" else a for a in inv.args], variant="plain", cwd=os.path.join(c.dir, "sub"), quiet_err=True)
    got = c.r("out") if inv.out else q.out
    if shown: want, put = like(c, inv, ["../" + a for a in inv.args if a in FILES]); got = put(got)
    check(c, inv, got, want, "names: from another directory")
    if os.listdir(os.path.join(c.dir, "sub")) and any(x for x in os.listdir(os.path.join(c.dir, "sub")) if not x.startswith(("link-", "hard-")) and "sub/" + x not in mapping.values()): c.fail("%s leaves files in the working directory" % inv.label, "files-" + inv.tool)
HOSTILE = ["-", "%s%n%5c%ld.txt", "%", "a%%b%", "\\n.txt", "$HOME", "{1}", "a:b", "+x", "0", "name with blanks.txt", "\u00e9\u0301\u4e00.txt", "*", "=", "@", "#", "x" * 255, "{2} {~}", "caf\xe9".encode("latin-1").decode("utf-8", "surrogateescape"), "..."]
def hostile(c):
    """Names that look like something else, in the working directory."""
    inv = ALL[c.index % len(ALL)]; r = c.rng
    write_all(c, 12)
    want = result(c, inv, variant="plain", quiet_err=True)
    shown = inv.label in NAMES_SHOWN
    n = len([a for a in inv.args if a in FILES])
    for which in range(n):
        # each of the inputs in turn, for "-" as well as for others
        for name in ["-"] * (not shown) + ["%s%n%5c%ld.txt"] * shown + (["x" * 255] * shown) + r.sample(HOSTILE[2:], 3):
            k = -1; args = []; names_ = []
            for a in inv.args:
                if a in FILES:
                    k += 1; names_.append(name if k == which else "other-%d" % k if shown else a)
                    if k == which or shown: shutil.copy(os.path.join(c.dir, a), os.path.join(c.dir, names_[-1]))
                    args.append(names_[-1])
                else: args.append(a)
            if inv.out: c.rm(inv.out)
            w = want; put = lambda x: x
            if shown:
                # the names are displayed: compare with plain names of the same lengths
                plain = ["Q" * (len(os.fsencode(x)) - 2) + "%02d" % i for i, x in enumerate(names_)]
                if min(map(len, plain)) < 4: continue
                seq = [a for a in inv.args if a in FILES]
                for a, q in zip(seq, plain): shutil.copy(os.path.join(c.dir, a), os.path.join(c.dir, q))
                it = iter(plain)
                w = c.run(inv.tool, *[next(it) if a in FILES else a for a in inv.args], variant="plain").out
                for q in set(plain): c.rm(q)
                for a, q in zip(names_, plain): w = w.replace(q.encode(), os.fsencode(a))
            q = c.run(inv.tool, *args, variant="plain", quiet_err=True)
            check(c, inv, c.r(inv.out) if inv.out else q.out, w, "an input is called %r" % name)
            for x in names_:
                if x not in FILES: c.rm(x)
            c.count("hostile names"); c.note((inv.label, which, name), True)
def renamed(c):
    """Inputs between which the tool has to choose (ties of every kind), under names that sort, and are created, in other orders."""
    inv = SEVERAL[c.index % len(SEVERAL)]; r = c.rng
    write_all(c, 8)
    base = [ord(x) for x in r.choice(["one text", "ab", "some words of a line\nand more", "x", "12 12 12"])]
    kind = r.randrange(3)
    for i in range(4):
        t = list(base)
        if kind == 0: t[len(t) // 2] = 0x61 + i                  # each its own character at the same place
        elif kind == 1: t[i % len(t)] = 0x71 + i                 # each wrong at another place
        else: t = t * r.choice([1, 2]) + [0x61 + r.randrange(2)]
        c.w("t%d" % i, "".join(map(chr, t)).encode())
    g = gen.Gen(r)
    for i in range(3):
        if not inv.tool.endswith("ci") and r.random() < 0.5: c.w("a%d" % i, g.acc(True).text()); c.w("w%d" % i, g.wac(True).text()); c.w("e%d" % i, g.edo(True).text())
    want = result(c, inv, variant="plain", quiet_err=True)
    seq = [a for a in inv.args if a in FILES]
    for k in range(5):
        new = ["%s%d%s" % (r.choice(["A", "b", "\u00e9", "z"]), i, r.choice(["", ".txt"])) for i in r.sample(range(100, 1000), len(seq))]
        if k == 0: new = ["n%d" % (9 - i) for i in range(len(seq))]
        if k == 1: new = ["n" + "x" * (9 - i) for i in range(len(seq))]
        order = list(range(len(seq))); r.shuffle(order)
        for i in order: shutil.copy(os.path.join(c.dir, seq[i]), os.path.join(c.dir, new[i]))
        if inv.out: c.rm("out")
        it = iter(new)
        q = c.run(inv.tool, *[next(it) if a in FILES else a for a in inv.args], variant="plain", quiet_err=True)
        got, w = (c.r("out") if inv.out else q.out), want
        if inv.label in NAMES_SHOWN:
            x = like(c, inv, new)
            w, got = x[0], x[1](got)
        check(c, inv, got, w, "renamed: names in other orders")
        for n in new: c.rm(n)
def same_file(c):
    """The same input more than once, as one file or as copies."""
    inv = ALL[c.index % len(ALL)]
    write_all(c, 15)
    kinds = {a[0] for a in inv.inputs}
    first = {}
    def once(a): 
        if a not in FILES: return a
        return first.setdefault(a[0] if a[0] in "tawe" else a, a)
    args1 = [once(a) for a in inv.args]
    args2, k = [], 0
    for a, b in zip(inv.args, args1):
        if b in FILES:
            k += 1; shutil.copy(os.path.join(c.dir, b), os.path.join(c.dir, "copy%d" % k)); args2.append("copy%d" % k)
        else: args2.append(b)
    res = []
    if inv.label in NAMES_SHOWN: shutil.copy(os.path.join(c.dir, "t0"), os.path.join(c.dir, "copyX")); args1 = ["copyX" if a in FILES else a for a in args1]
    for args in (args1, args2):
        if inv.out: c.rm("out")
        q = c.run(inv.tool, *args, variant="plain", quiet_err=True)
        o = c.r("out") if inv.out else q.out
        if inv.label in NAMES_SHOWN: o = re.sub(rb"copy[\dX]", b"copyX", o)
        res.append(o)
    check(c, inv, res[1], res[0], "same file: copies against one file")
def pipes(c):
    """Inputs through named pipes, written in pieces of any size."""
    inv = ALL[c.index % len(ALL)]; r = c.rng
    big = c.index // len(ALL) % 2
    write_all(c, 20)
    if big:
        for i in range(4): c.w("t%d" % i, c.r("t%d" % i) + b" \t\xe2\x80\x83" * r.choice([900, 20000]))
    if r.random() < 0.5:
        g = gen.Gen(r)
        which = r.choice(["t1", "t2", "t3"])
        if inv.tool in ("ngram", "synctext", "vote", "wordfreq", "accuracy", "editop", "wordacc") and which in inv.inputs: c.w(which, g.header() + c.r(which))
    want = result(c, inv, variant="plain", quiet_err=True)
    before = shot(c)
    ths, args, stop = [], [], []
    def feed(path, data, sizes):
        try:
            with open(path, "wb", buffering=0) as f:
                i = 0
                for k in sizes:
                    if i >= len(data): break
                    f.write(data[i:i + k]); i += k
                if i < len(data): f.write(data[i:])
        except OSError: pass
    k = 0
    for a in inv.args:
        if a in FILES:
            k += 1; p = os.path.join(c.dir, "fifo%d" % k); os.mkfifo(p); args.append("fifo%d" % k)
            d = c.r(a)
            sizes = r.choice([[], [1] * 50, [len(d) // 2, 1, 1], [4095, 1, 4096], [r.randint(1, 300) for _ in range(20)]])
            ths.append(threading.Thread(target=feed, args=(p, d, sizes), daemon=True))
        else: args.append(a)
    if inv.out: c.rm("out")
    for t in ths: t.start()
    q = None
    try: q = c.run(inv.tool, *args, variant="plain", quiet_err=True, wall=120)
    finally:
        for n in range(1, k + 1):            # release feeders that were not read
            try:
                fd = os.open(os.path.join(c.dir, "fifo%d" % n), os.O_RDONLY | os.O_NONBLOCK); os.close(fd)
            except OSError: pass
        for t in ths: t.join(5)
    got = c.r("out") if inv.out else q.out
    if inv.label in NAMES_SHOWN:
        want, put = like(c, inv, ["fifo%d" % n for n in range(1, k + 1)]); got = put(got)
    check(c, inv, got, want, "pipes: inputs through pipes")
    unchanged(c, before, inv.label, inv)
def parallel(c):
    """Many instances at the same time in one directory."""
    r = c.rng
    write_all(c, 25)
    some = [r.choice(ALL) for _ in range(12)]
    want = [result(c, i, variant="plain", quiet_err=True) for i in some]
    before = shot(c)
    ps = []
    for k, i in enumerate(some):
        args = ["out%d" % k if a == "out" else a for a in i.args]
        ps.append(subprocess.Popen([os.path.join(c.bins["plain"], i.tool)] + args, cwd=c.dir, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, env={"LC_ALL": "C.UTF-8"})); c.n_runs += 1
    outs = [p.communicate()[0] for p in ps]
    for k, i in enumerate(some):
        if i.out: outs[k] = c.r("out%d" % k); c.rm("out%d" % k)
        check(c, i, outs[k], want[k], "parallel: with %d others" % (len(some) - 1))
    c.rm("out"); unchanged(c, before, "parallel runs", some[0])
CREATE = re.compile(rb'^\d+ +(open|openat|creat|unlink|unlinkat|rename|renameat|renameat2|mkdir|mkdirat|link|linkat|symlink|symlinkat|truncate|ftruncate|chmod|fchmodat|utimensat|mknod|mknodat)\((.*)\) += (-?\d+)', re.M)
def trace(c):
    """Every file created, written, removed."""
    if not strace_works(): c.count("strace is not usable"); return
    inv = ALL[c.index % len(ALL)]
    write_all(c, 15)
    if inv.out: c.rm("out")
    calls = "open,openat,creat,unlink,unlinkat,rename,renameat,renameat2,mkdir,mkdirat,link,linkat,symlink,symlinkat,truncate,ftruncate,chmod,fchmodat,utimensat,mknod,mknodat,socket,connect,execve,kill"
    c.run(inv.tool, *inv.args, variant="plain", prefix=["strace", "-f", "-qq", "-o", "strace", "-e", "trace=" + calls], quiet_err=True)
    log = c.r("strace")
    opened = set(); n = 0
    for m in CREATE.finditer(log):
        call, args, ret = m.groups(); n += 1
        names_ = re.findall(rb'"((?:[^"\\]|\\.)*)"', args)
        if call in (b"open", b"openat", b"creat"):
            if ret.startswith(b"-"):
                continue
            if call == b"creat" or re.search(rb"O_WRONLY|O_RDWR|O_CREAT|O_TRUNC|O_APPEND", args):
                if not (inv.out and names_[:1] == [b"out"]): c.fail("%s opens %r for writing" % (inv.label, names_[:1]), "files-" + inv.tool)
            else: opened.update(x.decode(errors="replace") for x in names_)
        elif not ret.startswith(b"-"): c.fail("%s calls %s(%s)" % (inv.label, call.decode(), args[:100].decode(errors="replace")), "files-" + inv.tool)
    for x in inv.inputs:
        if x not in opened: c.fail("%s never opens %s" % (inv.label, x), "trace-" + inv.tool)
    other = {x for x in opened if not x.startswith(("/lib", "/usr/lib", "/etc/ld", "/usr/local/lib", "/usr/share/locale")) and x not in inv.inputs}
    if other: c.fail("%s reads other files: %s" % (inv.label, sorted(other)), "other-inputs-" + inv.tool)
    if re.search(rb"^\d+ +(socket|connect|kill)\(", log, re.M): c.fail("%s uses sockets or signals" % inv.label, "trace-" + inv.tool)
    c.count("system calls on files", n); c.note((inv.label, "trace"), True)
def heap(c):
    """Contents of fresh memory do not matter (repeated with random texts)."""
    g = gen.Gen(c.rng); r = c.rng
    inv = INV[c.index % len(INV)]
    aux(c)
    x, y, al = g.pair()
    ts = [x, y, g.mutate(x, al), g.mutate(x, al)][:inv[2]]
    nm = [c.w("t%d" % i, g.marked(t)) for i, t in enumerate(ts)]
    want = invoke(c, inv, nm)
    for v in ("85", "255", "3"):
        c.same(invoke(c, inv, nm, variant="plain", env={"MALLOC_PERTURB_": v}), want, "%s with other heap contents" % inv[0]); c.count("comparisons")
    c.note((inv[0], ts), True)
N = len(ALL)
SEVERAL = [i for i in ALL if len(i.inputs) > 1] + [BY["vote-O"]] * 4
FAMILIES = {"locales": (locales, 2 * N, 8 * N), "spy": (spy, 3 * N, 12 * N), "env": (env, 3 * N, 10 * N), "names": (names, 3 * N, 10 * N), "hostile": (hostile, N, 5 * N), "renamed": (renamed, 5 * len(SEVERAL), 40 * len(SEVERAL)), "same_file": (same_file, 2 * N, 6 * N), "pipes": (pipes, 6 * N, 20 * N), "parallel": (parallel, 60, 400), "trace": (trace, N, 2 * N), "heap": (heap, 1300, 8000)}
MIN_NONTRIVIAL = 500
