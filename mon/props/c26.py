"""The command line is interpreted as documented by every tool."""
from props.alltools import *
import os
RULE = ("a case is a set of argument vectors: every tool with every one-letter option, every number of files, every prefix of -help in every position, and random vectors of documented, unknown, repeated, attached and separate options among files; "
        "the oracle is an independent interpreter of the documented syntax that predicts usage, error or success, and for success the output must equal that of the canonical order; non-trivial: a vector with at least one option or a refusal")
VARIANTS = ("plain", "asan")
# tool -> (value options, flags, kinds of files, minimum, maximum number of files, optional output file)
T, A, W, E = "t", "a", "w", "e"
SPEC = {"accci": ("", "", A, 2, 99, 0), "accdist": ("", "", A, 1, 99, 0), "accsum": ("", "", A, 2, 99, 0), "accuracy": ("", "", T, 2, 2, 1), "editop": ("", "", T, 2, 2, 1), "editopcost": ("", "", E, 1, 2, 0), "editopsum": ("", "", E, 2, 99, 0),
        "groupacc": ("", "", "ga", 2, 2, 1), "ngram": ("n", "", T, 1, 99, 0), "nonstopacc": ("", "", "sw", 2, 2, 0), "synctext": ("", "HisT", T, 2, 16, 0), "vote": ("osw", "O", T, 2, 16, 0), "wordacc": ("S", "", T, 2, 2, 1),
        "wordaccci": ("", "", W, 2, 99, 0), "wordaccdist": ("", "", W, 1, 99, 0), "wordaccsum": ("", "", W, 2, 99, 0), "wordfreq": ("", "", T, 1, 99, 0)}
UNDOCUMENTED = {"vote": "D", "editop": "D"}
def fraction(v): return len(v) == 3 and v[1] == "/" and v[0] in "123456789" and v[2] in "123456789" and v[0] <= v[2]
def interpret(tool, args):
    """('usage'|'error'|'ok', options, files)."""
    vals, flags, kind, lo, hi, out = SPEC[tool]
    if not args: return "usage", None, None
    opts, files, i = {}, [], 0
    while i < len(args):
        a = args[i]
        if len(a) > 1 and a[0] == "-":
            if "-help".startswith(a): return "usage", None, None
            if a[1] in vals:
                if len(a) > 2: v = a[2:]
                elif i + 1 < len(args): i += 1; v = args[i]
                else: return "error", None, None
                if a[1] in opts: return "error", None, None
                opts[a[1]] = v
            elif a[1] in flags and len(a) == 2:
                if a[1] in opts: return "error", None, None
                opts[a[1]] = None
            else: return "error", None, None
        else: files.append(a)
        i += 1
    n = len(files)
    if n < lo or n > hi + out: return "error", None, None
    if tool == "synctext" and "T" in opts and n > 2: return "error", None, None
    if "n" in opts and opts["n"] not in ("1", "2", "3"): return "error", None, None
    for k in "sw":
        if tool == "vote" and k in opts and not fraction(opts[k]): return "error", None, None
    return "ok", opts, files
def files_for(tool, r, n):
    kind = SPEC[tool][2]
    if len(kind) == 1: return [kind + str(r.randrange(3)) for _ in range(n)]
    return [{"g": "grp", "s": "stop"}[kind[0]]] * min(1, n) + [kind[1] + str(r.randrange(3)) for _ in range(min(1, n - 1) if n else 0)] + ["out"] * max(0, n - 2)
def snapshot(c): return {n: c.r(n) for n in os.listdir(c.dir) if os.path.isfile(os.path.join(c.dir, n))}
def usage_ok(c, tool, args):
    r = c.run(tool, *args, variant="plain", ok=None)
    if r.rc != 0 or r.out or not r.err.startswith(("Usage:  %s " % tool).encode()): c.fail("%s %s: no usage on standard error with status 0: status %d, %r, %r" % (tool, args, r.rc, r.out[:80], r.err[:80]), "usage-" + tool)
    c.count("usage shown")
    return r.err
def judge(c, tool, args, variant="plain", before=None, stdin=()):
    what, opts, files = interpret(tool, args)
    before = before or snapshot(c)
    if what == "usage": usage_ok(c, tool, args)
    elif what == "error":
        c.expect_error(tool, *args, variant=variant)
        if stdin:
            # a missing file is not taken from the standard input
            for name in stdin:
                with open(os.path.join(c.dir, name), "rb") as f: c.expect_error(tool, *args, variant="plain", stdin=f)
                c.count("refused with a valid file on the standard input")
        if snapshot(c) != before: c.fail("%s %s: files changed in spite of the error" % (tool, args), "result-on-error-" + tool)
        c.count("refused")
    else:
        out = files[-1] if len(files) > SPEC[tool][4] else opts.get("o")
        r = c.run(tool, *args, variant=variant, quiet_err=True)
        got = c.r(out) if out else r.out
        if out and r.out: c.fail("%s %s: standard output used" % (tool, args), "stdout-" + tool)
        canon = []
        for k in sorted(opts):
            if k != "o": canon += ["-" + k] + ([opts[k]] if opts[k] is not None else [])
        want = c.run(tool, *(canon + (files[:-1] if len(files) > SPEC[tool][4] else files)), variant="plain", quiet_err=True).out
        c.same(got, want, "%s %s against the plain form" % (tool, args))
        if out: c.rm(out)
        now = snapshot(c)
        before = {k: v for k, v in before.items() if k != out}
        if now != before: c.fail("%s %s: other files changed: %s" % (tool, args, sorted(k for k in set(now) | set(before) if now.get(k) != before.get(k))), "files-" + tool)
        c.count("accepted")
    c.note((tool, tuple(args)), what != "ok" or bool(opts), sample=[tool] + args)
    return what
VALUES = {"n": ["1", "2", "3", "1", "2", "3", "0", "4", "x", "12", "", "-1", " 2", "+2", "2 ", "\u0662"], "o": ["out"], "s": ["1/2", "1/1", "9/9", "3/7", "0/1", "2/1", "1/0", "1", "/", "1/", "/2", "x/y", "1/2/", "1-2", "10/20", "1/10", "", ":/:", "1/:", "9/:", "5/4", "0/0", "1//", "1/a"],
          "w": ["1/2", "1/1", "1/9", "8/9", "2/1", "1/0", "0/9", "", "12", "1/2x", "1/;", "//"], "S": ["stop", "t0", "t1"]}
def good(tool, k, r): return r.choice({"n": ["1", "2", "3"], "o": ["out"], "s": ["1/2", "2/3", "9/9"], "w": ["1/3", "1/2", "5/9"], "S": ["stop", "t1"]}[k])
def random(c):
    r = c.rng
    write_all(c, 12)
    before = snapshot(c)
    for _ in range(6):
        tool = r.choice(sorted(SPEC))
        vals, flags, kind, lo, hi, out = SPEC[tool]
        n = r.choice([lo, lo, lo, min(hi, lo + 1), r.randint(0, min(hi + out + 2, 18))])
        files = files_for(tool, r, n)
        if out and n > hi: files = files[:hi] + ["out"] * (n - hi)
        parts = [[f] for f in files]
        strict = r.random() < 0.6
        for k in vals:
            if r.random() < 0.55:
                v = good(tool, k, r) if strict or r.random() < 0.4 else r.choice(VALUES[k])
                if k == "o" and r.random() < 0.2: continue
                o = ["-" + k + v] if v and r.random() < 0.5 else ["-" + k, v]
                parts.insert(r.randint(0, len(parts)), o)
        for k in flags:
            if r.random() < 0.4: parts.insert(r.randint(0, len(parts)), ["-" + k])
        if not strict:
            for _ in range(r.choice([0, 1, 1, 2])):
                junk = r.choice([["-x"], ["-h"], ["-help"], ["-he"], ["-helpx"], ["--help"], ["--"], ["-hx"], ["-1"]] + [["-" + k] for k in vals + flags] + [["-" + k + "x"] for k in vals + flags if k not in "oS"] + [["-%s%s" % (k, k)] for k in flags])
                parts.insert(r.randint(0, len(parts)), junk)
        args = [x for p in parts for x in p]
        if any(a in ("-o", "-S") for a in args) and not strict:
            # the value of such an option must stay a scratch name
            bad = False
            for i, a in enumerate(args):
                if a in ("-o",) and i + 1 < len(args) and args[i + 1] != "out": bad = True
                if a in ("-S",) and i + 1 < len(args) and args[i + 1] not in ("stop", "t0", "t1", "t2"): bad = True
            if bad: continue
        if any(a[1:2] in UNDOCUMENTED.get(tool, "") and a[0] == "-" and len(a) > 1 for a in args if a): continue
        what, opts, files = interpret(tool, args)
        if what == "ok" and "out" in (files[:-1] if len(files) > SPEC[tool][4] else files): continue     # an option has swallowed an input
        judge(c, tool, args, "asan" if r.random() < 0.2 else "plain", before)
def letters(c):
    """Every tool with every option letter, alone, attached and separate."""
    tool = sorted(SPEC)[c.index]
    write_all(c, 8); r = c.rng
    before = snapshot(c)
    files = files_for(tool, r, max(2, SPEC[tool][3]) if SPEC[tool][4] > 1 else SPEC[tool][3])
    vals, flags = SPEC[tool][:2]
    for ch in [chr(x) for x in range(33, 127)] + ["\u00e9"]:
        if ch in UNDOCUMENTED.get(tool, "") or ch in "h": continue
        forms = [["-" + ch] + files, files + ["-" + ch], files[:1] + ["-" + ch] + files[1:], ["-" + ch + "x"] + files]
        if ch in vals:
            v = good(tool, ch, r)
            forms = [["-" + ch + v] + files, ["-" + ch, v] + files, files + ["-" + ch, v], files + ["-" + ch + v], files[:1] + ["-" + ch, v] + files[1:], files + ["-" + ch], ["-" + ch, v, "-" + ch, v] + files, ["-" + ch + v] + files + ["-" + ch + v]]
        elif ch in flags: forms += [["-" + ch] + files + ["-" + ch], ["-" + ch * 2] + files]
        for f in forms: judge(c, tool, f, before=before)
def helps(c):
    tool = sorted(SPEC)[c.index]
    write_all(c, 8); r = c.rng
    files = files_for(tool, r, SPEC[tool][3])
    u = usage_ok(c, tool, [])
    for h in ("-h", "-he", "-hel", "-help"):
        for a in ([h], [h] + files, files + [h], files[:1] + [h] + files[1:], [h, "-x"], [h, "missing", "missing"], [h, h]):
            if usage_ok(c, tool, a) != u: c.fail("%s: the usage differs for %s" % (tool, a), "usage-" + tool)
    for h in ("-helpx", "-hx", "-hell", "--help", "-H1", "-hELP", "-elp", "-?"):
        judge(c, tool, [h] + files); judge(c, tool, files + [h])
    before = snapshot(c)
    for h in (["-x", "-h"], ["-x"] + files + ["-help"]): judge(c, tool, h, before=before)
    # the name under which it is called
    d = os.path.join(c.dir, "sub dir"); os.mkdir(d); os.symlink(os.path.join(c.bins["plain"], tool), os.path.join(d, "other-name"))
    q = c.run(tool, "-h", exe=os.path.join(d, "other-name"), ok=None)
    if q.rc or not q.err.startswith(b"Usage:  other-name "): c.fail("usage under another name: %r" % q.err[:80], "usage-" + tool)
    q = c.run(tool, "-Z", exe=os.path.join(d, "other-name"), ok=None)
    if q.rc != 1 or not q.err.startswith(b"other-name: "): c.fail("error under another name: %r" % q.err[:80], "no-message-" + tool)
def counts(c):
    """Every number of files."""
    tool = sorted(SPEC)[c.index]
    write_all(c, 6); r = c.rng
    vals, flags, kind, lo, hi, out = SPEC[tool]
    before = snapshot(c)
    for n in range(0, 20 if hi > 5 else 8):
        files = files_for(tool, r, n)
        if out and n > hi: files = files[:hi] + ["out"] + ["t0"] * (n - hi - 1) if len(kind) == 1 else (files[:2] + ["out"] + ["grp"] * (n - hi - 1))
        first = {"g": "grp", "s": "stop"}.get(kind[0], kind[0] + "0")
        given = dict.fromkeys([first, kind[-1] + "1"])
        if n: judge(c, tool, files, before=before, stdin=given)
        # every kind of file in every position, as a report too is a text
        if 0 < n < lo: judge(c, tool, [kind[-1] + "1"] * n, before=before, stdin=given)
        if n or vals + flags:
            for k in vals + flags: judge(c, tool, ["-" + k] + ([good(tool, k, r)] if k in vals else []) + files, before=before, stdin=given)
def fractions(c):
    """Every short string as value of the options that take numbers."""
    write_all(c, 6); r = c.rng
    before = snapshot(c)
    opt = "sw"[c.index % 2]
    ch = "019/2"[c.index // 2 % 5] if c.index < 10 else chr(r.randint(33, 126))
    for b in "/1-09":
        for d in ["", "0", "1", "5", "9", ":", "/", "x"]:
            for e in ["", "1", "/"]:
                v = ch + b + d + e
                judge(c, "vote", r.choice([["-" + opt, v], ["-" + opt + v]]) + ["t0", "t1"], before=before)
def numbers(c):
    write_all(c, 6); before = snapshot(c)
    for v in [chr(x) for x in range(33, 127)] + ["1" + chr(x) for x in range(33, 127)] + ["", "01", " 1", "1 ", "+1", "-1", "1.0", "1e0", "0x1", "257", "65537", "4294967297", "1" * 50]:
        judge(c, "ngram", ["-n", v, "t0"], before=before)
        if v: judge(c, "ngram", ["t0", "-n" + v], before=before)
def outfile(c):
    """The report file: new, existing and longer, existing and read-only position, odd names."""
    r = c.rng
    tool = ["accuracy", "editop", "groupacc", "wordacc", "vote"][c.index % 5]
    write_all(c, 15)
    files = files_for(tool, r, 2)
    want = c.run(tool, *files, variant="plain", quiet_err=True).out
    for name in ("out", "o" * 200, "sp ace", "caf\u00e9", "-", "./-x", "a.b.c", "%s%n", "..out"):
        for old in (None, b"", b"x" * (len(want) + 5000), want):
            if old is None: c.rm(name)
            else: c.w(name, old)
            args = files + [name]
            if tool == "vote": args = r.choice([["-o", name] + files, files + ["-o" + name]])
            q = c.run(tool, *args, variant="plain", quiet_err=True)
            if q.out: c.fail("%s writes to standard output although %s is named" % (tool, name), "stdout-" + tool)
            c.same(c.r(name), want, "%s with report file %s" % (tool, name))
            c.count("report files"); c.rm(name)
    c.note((tool, "outfile", c.index), True)
def infile(c):
    """Inputs of any name: a lone - and names with special characters are files, never options."""
    r = c.rng
    tool = sorted(SPEC)[c.index % len(SPEC)]
    write_all(c, 12)
    files = files_for(tool, r, max(1, SPEC[tool][3]))
    want = c.run(tool, *files, variant="plain", quiet_err=True)
    if tool == "synctext": want = None          # shows the names
    for name in ("-", "%s%n", "sp ace", "caf\u00e9", "./-h", "..t", "n" * 250, "*", "$(x)"):
        i = r.randrange(len(files))
        c.w(name, c.r(files[i]))
        args = files[:i] + [name] + files[i + 1:]
        q = c.run(tool, *args, variant="plain", quiet_err=True)
        if want is not None: c.same(q.out, want.out, "%s %s, where %s is a copy of %s" % (tool, args, name, files[i]))
        elif not q.out: c.fail("%s %s has no output" % (tool, args), "no-output")
        c.count("odd names"); c.rm(name); c.note((tool, name), True)
S = len(SPEC)
FAMILIES = {"random": (random, 500, 12000), "letters": (letters, S, S, "fixed"), "helps": (helps, S, S, "fixed"), "counts": (counts, S, S, "fixed"), "fractions": (fractions, 12, 60), "numbers": (numbers, 1, 1, "fixed"), "infile": (infile, S, 5 * S, "fixed"), "outfile": (outfile, 10, 100)}
BIG = ("letters", "numbers", "counts", "fractions")
MIN_NONTRIVIAL = 1000
