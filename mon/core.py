"""Building the tools from /repo, running them under watch, collecting verdicts and evidence."""
import ctypes, hashlib, json, multiprocessing, os, random, re, resource, shutil, signal, subprocess, sys, tempfile, time, traceback
import model

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get("MON_REPO", "/repo")
SRC = os.path.join(REPO, "src")
CACHE = os.environ.get("MON_CACHE", os.path.join(VERIF, ".cache"))
TOOLS = ("accci accdist accsum accuracy editop editopcost editopsum groupacc ngram nonstopacc synctext vote "
         "wordacc wordaccci wordaccdist wordaccsum wordfreq").split()
JOBS = int(os.environ.get("MON_JOBS", "0")) or min(8, os.cpu_count() or 1)

BASE = ["-std=gnu90", "-D_XOPEN_SOURCE=600", "-I/usr/local/include", "-w"]
VARIANTS = {
    "asan": ["gcc", "-g", "-O1", "-fno-omit-frame-pointer", "-fsanitize=address,undefined",
             "-fno-sanitize-recover=all"],
    # counts read from damaged reports may wrap around; everything else stays fatal
    "asanrpt": ["gcc", "-g", "-O1", "-fno-omit-frame-pointer", "-fsanitize=address,undefined",
                "-fno-sanitize=signed-integer-overflow", "-fno-sanitize-recover=all"],
    "plain": ["gcc", "-g", "-O1"],
}
SAN_ENV = {
    "ASAN_OPTIONS": "detect_leaks=0:exitcode=99:abort_on_error=0:halt_on_error=1:detect_stack_use_after_return=1:"
                    "strict_string_checks=1:hard_rss_limit_mb=6000:allocator_may_return_null=1:handle_segv=1:malloc_fill_byte=190:max_malloc_fill_size=65536",
    "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=1:exitcode=99",
}

class BuildError(Exception): pass

class Violation(Exception):
    def __init__(self, msg, key=None):
        super().__init__(msg); self.msg = msg; self.key = key or re.sub(r"[^A-Za-z]+", "-", msg)[:60]

class Inconclusive(Exception): pass

# ------------------------------------------------------------------------------------------ build
def source_hash(extra=""):
    h = hashlib.sha256(extra.encode())
    for n in sorted(os.listdir(SRC)):
        if n.endswith((".c", ".h")):
            h.update(n.encode() + b"\0"); h.update(open(os.path.join(SRC, n), "rb").read()); h.update(b"\0")
    return h.hexdigest()[:24]

def _cc(cmd):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    return p.returncode, p.stdout.decode(errors="replace"), cmd

def build(variant):
    """Directory with the 17 tools and libocreval.a, compiled from the current /repo/src."""
    flags = VARIANTS[variant] + BASE
    d = os.path.join(CACHE, "%s-%s" % (variant, source_hash(" ".join(flags))))
    if os.path.exists(os.path.join(d, "done")): return d
    os.makedirs(CACHE, exist_ok=True)
    t = tempfile.mkdtemp(prefix=variant + "-", dir=CACHE)
    names = sorted(n[:-2] for n in os.listdir(SRC) if n.endswith(".c"))
    for x in TOOLS:
        if x not in names: raise BuildError("src/%s.c is missing" % x)
    mods = [n for n in names if n not in TOOLS]
    inc = ["-I" + SRC]
    from concurrent.futures import ThreadPoolExecutor
    with ThreadPoolExecutor(JOBS) as ex:
        def run_all(cmds):
            for rc, out, cmd in ex.map(_cc, cmds):
                if rc: raise BuildError("%s\n%s" % (" ".join(cmd), out[-3000:]))
        try:
            run_all([flags + inc + ["-c", "-o", t + "/%s.o" % n, SRC + "/%s.c" % n] for n in names])
            run_all([["ar", "rcs", t + "/libocreval.a"] + [t + "/%s.o" % m for m in mods]])
            run_all([flags + ["-o", t + "/" + x, t + "/%s.o" % x, t + "/libocreval.a", "-L/usr/local/lib",
                     "-lm", "-lutf8proc"] for x in TOOLS])
        except BuildError:
            shutil.rmtree(t, ignore_errors=True); raise
    for n in names: os.unlink(t + "/%s.o" % n)
    open(t + "/done", "w").close()
    try: os.rename(t, d)
    except OSError:
        shutil.rmtree(t, ignore_errors=True)
        if not os.path.exists(os.path.join(d, "done")): raise
    return d

def build_harness(name, variant="asan", extra=()):
    """Compile /verif/mon/harness/<name>.c against the library; None if it does not compile."""
    d = build(variant)
    src = os.path.join(HERE, "harness", name + ".c")
    tag = hashlib.sha256(open(src, "rb").read()).hexdigest()[:12]
    out = os.path.join(d, "h-%s-%s" % (name, tag))
    if os.path.exists(out): return out
    tmp = out + ".%d" % os.getpid()
    rc, log, _ = _cc(VARIANTS[variant] + ["-D_XOPEN_SOURCE=600", "-w", "-I" + SRC, "-o", tmp, src,
                      os.path.join(d, "libocreval.a"), "-lm", "-lutf8proc"] + list(extra))
    if rc:
        sys.stderr.write("harness %s does not compile here, skipped:\n%s\n" % (name, log[-1500:]))
        return None
    os.rename(tmp, out)
    return out

def build_preload(name):
    src = os.path.join(HERE, "harness", name + ".c")
    tag = hashlib.sha256(open(src, "rb").read()).hexdigest()[:12]
    os.makedirs(CACHE, exist_ok=True)
    out = os.path.join(CACHE, "%s-%s.so" % (name, tag))
    if not os.path.exists(out):
        tmp = out + ".%d" % os.getpid()
        rc, log, _ = _cc(["gcc", "-O1", "-shared", "-fPIC", "-o", tmp, src, "-ldl"])
        if rc: raise BuildError(log)
        os.rename(tmp, out)
    return out

LOCALES = (("tr_TR", "UTF-8"), ("de_DE", "UTF-8"), ("de_DE", "ISO-8859-1"), ("ja_JP", "EUC-JP"), ("fa_IR", "UTF-8"), ("sv_SE", "UTF-8"))
def build_locales():
    """Locales to run under: {name: directory for LOCPATH}; those that can be made here."""
    d = os.path.join(CACHE, "locales"); res = {}
    os.makedirs(d, exist_ok=True)
    ps = []
    for l, m in LOCALES:
        n = "%s.%s" % (l, m)
        if not os.path.isdir(os.path.join(d, n)):
            t = tempfile.mkdtemp(prefix="new", dir=d)
            try: ps.append((n, t, subprocess.Popen(["localedef", "-c", "--no-archive", "-i", l, "-f", m, os.path.join(t, n)], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)))
            except OSError: shutil.rmtree(t, ignore_errors=True); break
    for n, t, p in ps:
        p.wait()
        if os.path.exists(os.path.join(t, n, "LC_CTYPE")):
            try: os.rename(os.path.join(t, n), os.path.join(d, n))
            except OSError: pass
        shutil.rmtree(t, ignore_errors=True)
    for l, m in LOCALES:
        if os.path.isdir(os.path.join(d, "%s.%s" % (l, m))): res["%s.%s" % (l, m)] = d
    return res

# ------------------------------------------------------------------------------------------ running
class Result:
    __slots__ = ("rc", "out", "err", "argv")
    def __init__(s, rc, out, err, argv): s.rc, s.out, s.err, s.argv = rc, out, err, argv

def _cpu_of(pid):
    try:
        f = open("/proc/%d/stat" % pid).read().rsplit(")", 1)[1].split()
        return (int(f[11]) + int(f[12])) / os.sysconf("SC_CLK_TCK")
    except (OSError, IndexError): return None

def _asleep(pid):
    try: return open("/proc/%d/stat" % pid).read().rsplit(")", 1)[1].split()[0] == "S"
    except (OSError, IndexError): return False

MEMORY_LIMIT = 10 << 30 # of an uninstrumented run; the others have hard_rss_limit_mb above. The largest sound ones take 3 GB and 4 GB
CPU_LIMIT = 40.0        # seconds of its own CPU time after which a run counts as not ending
def quote(argv): return " ".join(a if re.fullmatch(r"[\w./=,:%+-]+", a) else "'" + a.replace("'", "'\\''") + "'" for a in argv)

class Ctx:
    """One case: seeded randomness, a scratch directory, watched runs, notes for the evidence."""
    def __init__(s, prop, tier, seed, family, index, base, dirs):
        s.prop, s.tier, s.seed, s.family, s.index = prop, tier, seed, family, index
        s.rng = random.Random("%s/%s/%s/%s" % (seed, prop, family, index))
        s.dir = tempfile.mkdtemp(prefix="c", dir=base)
        s.bins = dirs
        s.counts, s.sigs, s.samples, s.log = {}, [], [], []
        s.n_runs = 0
    # -- evidence
    def count(s, k, n=1): s.counts[k] = s.counts.get(k, 0) + n
    def note(s, sig, nontrivial=True, sample=None):
        h = hashlib.blake2b(repr(sig).encode(), digest_size=8).hexdigest()
        s.sigs.append((h, bool(nontrivial)))
        if sample is not None and nontrivial and len(s.samples) < 1: s.samples.append(sample)
    # -- files
    def w(s, name, data):
        if isinstance(data, str): data = data.encode("utf-8", "surrogatepass")
        with open(os.path.join(s.dir, name), "wb") as f: f.write(data)
        return name
    def r(s, name):
        try:
            with open(os.path.join(s.dir, name), "rb") as f: return f.read()
        except FileNotFoundError: raise Violation("the file %s was not written" % name, "no-file")
    def exists(s, name): return os.path.exists(os.path.join(s.dir, name))
    def rm(s, name):
        try: os.unlink(os.path.join(s.dir, name))
        except FileNotFoundError: pass
    def size_of(s, args, cwd=None):
        """Bytes of the files named: the tools' time may grow with the product of two sizes."""
        n = 0
        for a in args:
            try: n += os.path.getsize(os.path.join(cwd or s.dir, a))
            except (OSError, ValueError): pass
        return n
    # -- runs
    def fail(s, msg, key=None): raise Violation(msg, key)
    def run(s, tool, *args, variant="asan", ok=(0,), env=None, stdin=None, stdout=None, cwd=None, prefix=(), exe=None,
            argv0=None, pass_fds=(), wall=600, quiet_err=False, cpu=None):
        args = [a if isinstance(a, str) else os.fsdecode(a) for a in args]
        exe = exe or os.path.join(s.bins[variant], tool)
        argv = list(prefix) + [exe] + args
        s.log.append("%s %s" % (tool, quote(args)[:2000]))
        e = {"PATH": "/usr/bin:/bin", "LC_ALL": "C.UTF-8"}
        e.update(SAN_ENV)
        if env: e.update(env)
        for _ in (0,): # a run that does not end is confirmed like every violation
            p = subprocess.Popen(argv, cwd=cwd or s.dir, env=e, stdin=subprocess.DEVNULL if stdin is None else stdin,
                                 stdout=subprocess.PIPE if stdout is None else stdout, stderr=subprocess.PIPE,
                                 pass_fds=pass_fds)
            s.n_runs += 1
            if variant == "plain" and not prefix:
                try: resource.prlimit(p.pid, resource.RLIMIT_AS, (MEMORY_LIMIT, MEMORY_LIMIT))
                except (OSError, ValueError): pass
            t0 = time.monotonic(); hang = limit = None; idle = [0, -1.0]
            while True:
                try:
                    out, err = p.communicate(timeout=20); break
                except subprocess.TimeoutExpired:
                    cpu_used = _cpu_of(p.pid) or 0
                    if limit is None: limit = cpu or min(4 * CPU_LIMIT, max(CPU_LIMIT, CPU_LIMIT * (s.size_of(args, cwd) / 10000.0) ** 2))
                    if cpu_used > limit: hang = "uses %d s of CPU time without ending" % cpu_used
                    elif time.monotonic() - t0 > wall: hang = "wall"
                    elif abs(cpu_used - idle[1]) > 0.02 or not _asleep(p.pid): idle = [0, cpu_used]
                    else:
                        idle[0] += 1
                        if idle[0] >= 4: hang = "waits for ever, using no CPU time"
                    if hang:
                        p.kill(); out, err = p.communicate(); break
            if not hang: break
            if stdin is not None: break
        if hang == "wall": raise Inconclusive("%s did not end within the watchdog" % tool)
        if hang: raise Violation("%s %s" % (tool, hang), "hang-" + tool)
        r = Result(p.returncode, out, err, [tool] + args)
        s.check_sane(r)
        if ok is not None and r.rc not in ok:
            raise Violation("%s exited with status %d, expected %s; stderr: %s" % (quote(r.argv)[:300], r.rc, "/".join(map(str, ok)),
                            r.err[-300:].decode(errors="replace")), "exit-status-%s" % tool)
        if ok == (0,) and r.err and not quiet_err:
            raise Violation("%s wrote to standard error though it succeeded: %r" % (quote(r.argv)[:300], r.err[:200]), "stderr-%s" % tool)
        return r
    def check_sane(s, r):
        """No sanitizer report, no signal."""
        e = r.err or b""
        if b"ERROR: AddressSanitizer" in e or b"runtime error:" in e or b"AddressSanitizer:DEADLYSIGNAL" in e or r.rc == 99:
            if b"hard rss limit exhausted" in e: raise Violation("%s uses excessive memory" % r.argv[0], "memory-" + r.argv[0])
            m = re.search(rb"(ERROR: AddressSanitizer[^\n]*|[^\n]*runtime error:[^\n]*)", e)
            fr = re.findall(rb"#\d+ 0x[0-9a-f]+ in (\S+) [^\n]*/src/", e)
            what = (m.group(1) if m else b"sanitizer exit").decode(errors="replace")
            what = re.sub(r"==\d+==|0x[0-9a-f]+", "", what)
            where = fr[0].decode() if fr else ""
            raise Violation("%s: %s in %s" % (quote(r.argv)[:200], what[:200], where), "sanitizer-%s-%s" % (r.argv[0], where))
        if r.rc < 0:
            if r.rc == -signal.SIGKILL: raise Inconclusive("killed (memory of the sandbox?)")
            raise Violation("%s died from signal %d" % (quote(r.argv)[:300], -r.rc), "signal-%s" % r.argv[0])
    def expect_error(s, tool, *args, **kw):
        """Status 1, a message 'tool: ...', no result."""
        r = s.run(tool, *args, ok=None, **kw)
        if r.rc != 1: raise Violation("%s: status %d where an error (1) is due; stderr %r" % (quote(r.argv)[:300], r.rc, r.err[:200]), "no-error-" + tool)
        if not r.err.startswith((tool + ": ").encode()): raise Violation("%s: no message on standard error: %r" % (quote(r.argv)[:300], r.err[:200]), "no-message-" + tool)
        if r.out: raise Violation("%s: a result in spite of the error: %r" % (quote(r.argv)[:300], r.out[:200]), "result-on-error-" + tool)
        return r
    def same(s, got, want, what):
        if got != want: raise Violation("%s: %s" % (what, diff(got, want)), None)

def diff(got, want):
    if isinstance(got, str): got = got.encode("utf-8", "surrogatepass")
    if isinstance(want, str): want = want.encode("utf-8", "surrogatepass")
    g, w = got.split(b"\n"), want.split(b"\n")
    for i in range(max(len(g), len(w))):
        a = g[i] if i < len(g) else None
        b = w[i] if i < len(w) else None
        if a != b: return "line %d is %r, expected %r" % (i + 1, a[:200] if a is not None else None, b[:200] if b is not None else None)
    return "differs"

# ------------------------------------------------------------------------------------------ cases
_G = {}
def few_descriptors():
    """The usual limit of 1,024 open files, so that a tool which forgets to close its inputs runs out of them."""
    hard = resource.getrlimit(resource.RLIMIT_NOFILE)[1]
    if hard == resource.RLIM_INFINITY or hard >= 1024: resource.setrlimit(resource.RLIMIT_NOFILE, (1024, hard))

def _children(pids):
    """The processes that the given ones have started."""
    res = []
    for n in os.listdir("/proc"):
        if n.isdigit():
            try:
                with open("/proc/%s/stat" % n) as f: q = int(f.read().rpartition(")")[2].split()[1])
            except (OSError, ValueError, IndexError): continue
            if q in pids: res.append(int(n))
    return res

def _init(base, dirs, prop, tier, seed, mod):
    _G.update(base=base, dirs=dirs, prop=prop, tier=tier, seed=seed, mod=mod)
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    few_descriptors()

def _one(task):
    family, index = task
    fn = _G["mod"].FAMILIES[family][0]
    c = Ctx(_G["prop"], _G["tier"], _G["seed"], family, index, _G["base"], _G["dirs"])
    status, msg, key, keep = "ok", None, None, None
    t0 = time.monotonic()
    try: fn(c)
    except Violation as v: status, msg, key = "violation", v.msg, v.key
    except model.Bad as v: status, msg, key = "violation", "unexpected output: %s" % v, "unexpected-output"
    except Inconclusive as v: status, msg = "inconclusive", str(v)
    except (OSError, MemoryError) as v: status, msg = "inconclusive", "%s: %s" % (type(v).__name__, v)
    except subprocess.SubprocessError as v: status, msg = "inconclusive", str(v)
    except Exception as v:
        status, key = "violation", "uninterpretable"
        msg = "output could not be interpreted: %s" % traceback.format_exc(limit=-4)
    if status == "violation": keep = save(c, msg, key)
    shutil.rmtree(c.dir, ignore_errors=True)
    return dict(family=family, index=index, status=status, msg=msg, key=key, keep=keep, counts=c.counts, sigs=c.sigs,
                samples=c.samples, runs=c.n_runs, wall=time.monotonic() - t0)

def save(c, msg, key):
    d = os.path.join(VERIF, "replays", c.prop, "%s-%s-%s" % (c.seed, c.family, c.index))
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    for n in os.listdir(c.dir):
        p = os.path.join(c.dir, n)
        if os.path.isfile(p) and not os.path.islink(p) and os.path.getsize(p) < 5_000_000: shutil.copy(p, d)
    with open(os.path.join(d, "REPLAY.txt"), "w", errors="replace") as f:
        f.write("property %s\nkey %s\n%s\n\ncommands (in this directory, tools built from %s):\n%s\n\nreplay: VERIF_SEED=%s VERIF_TIER=%s python3 mon/check.py %s --case %s:%s\n"
                % (c.prop, key, msg, SRC, "\n".join(c.log[-40:]), c.seed, c.tier, c.prop, c.family, c.index))
    return os.path.relpath(d, VERIF)

def known_findings():
    res = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"finding: property=(\S+) key=(\S+) (.*)", l)
            if m: res.append(m.groups())
    return res

def main(prop, mod, argv):
    t0 = time.monotonic()
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in argv: tier = "thorough"
    if tier not in ("quick", "thorough"): tier = "quick"
    try: seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError: seed = 1
    only = argv[argv.index("--case") + 1] if "--case" in argv else None
    fam = argv[argv.index("--family") + 1] if "--family" in argv else None
    scale = float(os.environ.get("MON_SCALE", "1"))
    dirs = {}
    try:
        for v in getattr(mod, "VARIANTS", ("asan",)): dirs[v] = build(v)
        if hasattr(mod, "prepare"): mod.prepare(dirs)
    except BuildError as e:
        print("ERROR: the tools do not build: %s" % e); return 2
    base = tempfile.mkdtemp(prefix="mon-%s-" % prop)
    os.chmod(base, 0o755)
    try:
        tasks = []
        for name, spec in mod.FAMILIES.items():
            n = spec[1] if tier == "quick" else spec[2]
            if spec[0] is None: continue
            n = n if len(spec) > 3 and spec[3] == "fixed" else int(max(1, n * scale)) if n else 0
            tasks += [(name, i) for i in range(n)]
        if only: f, i = only.rsplit(":", 1); tasks = [(f, int(i))]
        if fam: tasks = [t for t in tasks if t[0] == fam]
        random.Random(seed).shuffle(tasks)
        big = getattr(mod, "BIG", ())
        tasks.sort(key=lambda t: t[0] not in big)
        res, viol, incon = [], [], []
        counts, sigs, nontriv, samples, fams, runs = {}, set(), set(), [], {}, 0
        sample_fams = {}
        def absorb(r):
            nonlocal runs
            runs += r["runs"]
            e = fams.setdefault(r["family"], [0, 0.0]); e[0] += 1; e[1] += r["wall"]
            for k, v in r["counts"].items(): counts[k] = counts.get(k, 0) + v
            for h, nt in r["sigs"]:
                sigs.add(h)
                if nt: nontriv.add(h)
            if sample_fams.get(r["family"], 0) < 2 and r["samples"]:
                samples.append({"family": r["family"], "case": r["index"], "input": r["samples"][0]})
                sample_fams[r["family"]] = sample_fams.get(r["family"], 0) + 1
            if r["status"] == "violation": viol.append(r)
            elif r["status"] == "inconclusive": incon.append(r)
        most = int(os.environ.get("MON_ENOUGH", "40"))
        def enough(): return len(viol) >= most or sum(1 for r in viol if r["wall"] > 20) >= 3
        if len(tasks) == 1 or JOBS == 1:
            _init(base, dirs, prop, tier, seed, mod)
            for t in tasks: absorb(_one(t))
        else:
            with multiprocessing.get_context("fork").Pool(JOBS, _init, (base, dirs, prop, tier, seed, mod)) as pool:
                for r in pool.imap_unordered(_one, tasks, 1):
                    absorb(r)
                    if enough(): break
                left = _children({p.pid for p in getattr(pool, "_pool", [])}) if enough() else []
                pool.terminate()
                for q in left: # tools whose results are no longer waited for, perhaps some that never end
                    try: os.kill(q, signal.SIGKILL)
                    except OSError: pass
        # confirm in fresh runs
        _init(base, dirs, prop, tier, seed, mod)
        signal.signal(signal.SIGINT, signal.default_int_handler)
        confirmed, known, seen = [], [], {}
        for r in sorted(viol, key=lambda r: (r["wall"] > 20, r["index"])):
            k = (r["family"], r["key"])
            if seen.get(k, 0) >= 2 or len(confirmed) >= (1 if r["wall"] > 20 else 6): continue
            seen[k] = seen.get(k, 0) + 1
            again = None
            for _ in range(3):
                q = _one((r["family"], r["index"]))
                if q["status"] == "violation": again = q; break
            if again is None: incon.append(dict(r, msg="not reproduced: " + (r["msg"] or ""))); continue
            f = [x for x in known_findings() if x[0] == prop and x[1] == again["key"]]
            (known if f else confirmed).append((again, f))
        extra = mod.finish(counts) if hasattr(mod, "finish") else {}
        cov = {"evaluations": sum(v[0] for v in fams.values()), "distinct_nontrivial": len(nontriv),
               "rule": mod.RULE, "samples": samples[:8] or ["none"], "tool_runs": runs, "cases_per_family": {k: v[0] for k, v in fams.items()},
               "observed": counts, "inconclusive": len(incon)}
        cov.update(extra)
        ev = {"property": prop, "tier": tier, "seed": seed, "level": getattr(mod, "LEVEL", "exploration"), "coverage": cov,
              "assumptions": list(getattr(mod, "ASSUMPTIONS", ())) + ["utf8proc's character data and NFC (the library the tools link with) are trusted"],
              "wall_s": round(time.monotonic() - t0, 2), "violations": len(confirmed)}
        if not only and not fam:
            os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
            tmp = os.path.join(VERIF, "evidence", ".%s.%d" % (prop, os.getpid()))
            with open(tmp, "w") as f: json.dump(ev, f, indent=1, default=str)
            os.rename(tmp, os.path.join(VERIF, "evidence", prop + ".json"))
        if "-v" in argv:
            for k, v in sorted(fams.items()): print("  %-14s %6d cases %8.1f s" % (k, v[0], v[1]))
            print("  ", counts)
        for r in incon[:10]: print("INCONCLUSIVE %s:%s %s" % (r["family"], r["index"], (r["msg"] or "")[:300]))
        for r, f in known: print("KNOWN-FINDING: property=%s %s" % (prop, f[0][2]))
        for r, _ in confirmed:
            print("%s:%s %s" % (r["family"], r["index"], r["msg"][:1500]))
            print("VIOLATION property=%s replay=%s" % (prop, r["keep"]))
        print("%s %s seed %d: %d cases, %d distinct non-trivial, %d tool runs, %d violations, %d inconclusive, %.1f s" %
              (prop, tier, seed, cov["evaluations"], len(nontriv), runs, len(confirmed), len(incon), time.monotonic() - t0))
        if confirmed: return 1
        need = getattr(mod, "MIN_NONTRIVIAL", 2)
        if not only and not fam and scale >= 1 and len(nontriv) < need:
            print("ERROR: only %d non-trivial cases were observed" % len(nontriv)); return 2
        if len(incon) > max(5, cov["evaluations"] // 10):
            print("ERROR: too many inconclusive cases"); return 2
        return 0
    finally:
        subprocess.run(["chmod", "-R", "u+rwX", base], stderr=subprocess.DEVNULL)
        shutil.rmtree(base, ignore_errors=True)
