"""Incomplete reading or writing is never reported as success."""
from props.alltools import *
import os, subprocess, shutil, tempfile
RULE = ("a case is an invocation (31, covering all 17 tools) with one fault: an input or output that cannot be opened, a directory as file, a read error at the n-th read of an input, a write error at the n-th write or at close, "
        "a full device, a file size limit at a given byte, a closed or broken standard output; the tool must exit with status 1 (never 0) and a message; a fault counts only if it was seen to be delivered (strace reports the injection, or the output is shorter than the complete one); "
        "without fault the result must be complete; non-trivial: a delivered fault")
LEVEL = "fault_enumeration"
VARIANTS = ("plain", "asan")
LEVEL_NOTE = "Every listed fault is enumerated for every invocation; positions of read and write faults are enumerated up to a bound and sampled beyond. Faults are injected at system call level by strace on the checked process only, or by real conditions (/dev/full, size limits, directories, closed descriptors)."
TECHNIQUE = "fault injection at system calls (strace) and real fault conditions around the real tools; oracle over exit status, messages and completeness of output"
def must_fail(c, inv, r, what):
    if r.rc == 0: c.fail("%s: exits with status 0 though %s" % (inv.label, what), "success-" + inv.tool)
    if r.rc != 1: c.fail("%s: status %d though %s" % (inv.label, r.rc, what), "status-" + inv.tool)
    if not r.err.startswith(inv.tool.encode() + b": ") and b"\n" + inv.tool.encode() + b": " not in r.err: c.fail("%s: no message though %s: %r" % (inv.label, what, r.err[:200]), "silent-" + inv.tool)
    c.count(what.split(":")[0]); c.count("faults delivered")
    c.note((inv.label, what), True, sample=[inv.label, what])
def go(c, inv, args=None, **kw):
    kw.setdefault("variant", "plain")
    return c.run(inv.tool, *(args or inv.args), ok=None, quiet_err=True, **kw)
def opening(c):
    """Inputs and outputs that cannot be opened, one at a time."""
    inv = ALL[c.index % len(ALL)]
    write_all(c, 10)
    os.mkdir(os.path.join(c.dir, "dir")); os.symlink("nowhere", os.path.join(c.dir, "dangling")); os.symlink("loop", os.path.join(c.dir, "loop"))
    c.w("file", b"abc the")
    for i, a in enumerate(inv.args):
        if a in FILES:
            for bad in ("missing", "dir", "dangling", "loop", "file/x", "missing/x", "x" * 300, "dir/", "", "file/"):
                c.rm("out")
                r = go(c, inv, inv.args[:i] + [bad] + inv.args[i + 1:], variant="asan" if c.tier != "quick" else "plain")
                must_fail(c, inv, r, "an input cannot be read: argument %d is %s" % (i, bad[:20]))
                if inv.out is None and r.out: c.fail("%s: output %r though input %s cannot be read" % (inv.label, r.out[:80], bad[:20]), "result-" + inv.tool)
        if a == "out":
            for bad in ("dir", "missing/x", "file/x", "x" * 300, "dir/", "loop"):
                r = go(c, inv, inv.args[:i] + [bad] + inv.args[i + 1:])
                must_fail(c, inv, r, "the output cannot be created: argument %d is %s" % (i, bad[:20]))
                if r.out: c.fail("%s: output %r on standard output though the report file cannot be created" % (inv.label, r.out[:80]), "result-" + inv.tool)
        if a == "dir": pass
def devices(c):
    """Full device, closed and broken standard output."""
    inv = ALL[c.index % len(ALL)]
    write_all(c, c.rng.choice([3, 40, 2000]) if not inv.tool in CUBIC else SMALL)
    want = result(c, inv, variant="plain")
    if not want: c.fail("%s has no output" % inv.label, "no-output")
    if inv.out:
        r = go(c, inv, ["/dev/full" if a == "out" else a for a in inv.args]); must_fail(c, inv, r, "the output device is full: named file")
        return
    with open("/dev/full", "wb") as f: must_fail(c, inv, go(c, inv, stdout=f), "the output device is full: standard output")
    with open("/dev/null", "rb") as f: must_fail(c, inv, go(c, inv, stdout=f), "standard output is not open for writing: ")
    must_fail(c, inv, go(c, inv, prefix=["sh", "-c", 'exec "$0" "$@" >&-']), "standard output is closed: ")
    rd, wr = os.pipe(); os.close(rd)
    try: must_fail(c, inv, go(c, inv, stdout=wr, prefix=["env", "--ignore-signal=PIPE"]), "standard output is a broken pipe: ")
    finally: os.close(wr)
def sizes(c):
    """Space runs out at a given byte."""
    inv = ALL[c.index % len(ALL)]; r = c.rng
    small = c.index // len(ALL) % 2 == 0
    write_all(c, 8 if small else SMALL if inv.tool in CUBIC else 1200)
    want = result(c, inv, variant="plain")
    n = len(want)
    ks = {0, 1, n - 1, n, n + 1, n // 2} | {r.randint(0, n) for _ in range(6)} | {k for k in (4095, 4096, 4097, 8192) if k <= n}
    for k in sorted(k for k in ks if k >= 0):
        pre = ["prlimit", "--fsize=%d" % k, "env", "--ignore-signal=XFSZ"]
        c.rm("out")
        if inv.out: q = go(c, inv, prefix=pre); got = c.r("out") if c.exists("out") else b""
        else:
            with open(os.path.join(c.dir, "stdout"), "wb") as f: q = go(c, inv, prefix=pre, stdout=f)
            got = c.r("stdout")
        if k >= n:
            if q.rc != 0 or got != want: c.fail("%s: status %d or incomplete output although there is room" % (inv.label, q.rc), "room-" + inv.tool)
            c.count("complete results")
        else: must_fail(c, inv, q, "space for the output runs out: after %d of %d bytes" % (k, n))
CUBIC, SMALL = ("editop", "synctext", "vote"), 40
_strace = None
def strace_works():
    global _strace
    if _strace is None:
        _strace = False
        if shutil.which("strace"):
            p = subprocess.run(["strace", "-qq", "-o", "/dev/null", "-e", "trace=write", "-e", "inject=write:error=EIO", "printf", "x"], stdout=subprocess.PIPE, stderr=subprocess.PIPE)
            _strace = p.returncode != 0 and not p.stdout
    return _strace
def inject(c, inv, path, spec, **kw):
    """Run with an injected system call failure on one path; True with the result if it was delivered."""
    c.rm("strace")
    pre = ["strace", "-qq", "-f", "-o", "strace"] + (["-P", path] if path else []) + ["-e", "trace=" + spec.split(":")[0], "-e", "inject=" + spec]
    if inv.out: c.rm("out")
    r = go(c, inv, prefix=pre, **kw)
    log = c.r("strace") if c.exists("strace") else b""
    return b"(INJECTED)" in log, r
def reads(c):
    """The n-th read of the i-th input fails."""
    if not strace_works(): c.count("strace is not usable"); return
    inv = ALL[c.index % len(ALL)]; r = c.rng
    big = c.index // len(ALL) % 2
    write_all(c, 12 if not big else SMALL if inv.tool in CUBIC else 1200)
    if big and inv.tool in CUBIC:
        for i in range(4):                    # more bytes, not more characters
            c.w("t%d" % i, c.r("t%d" % i) + b" \t" * r.choice([2500, 5000]))
    for name in inv.inputs:
        for n in (1, 2, 3) if c.tier == "quick" else range(1, 9):
            err = r.choice(["EIO", "EISDIR", "ENXIO", "EBADF", "ESTALE", "ETIMEDOUT"])
            hit, q = inject(c, inv, name, "read:error=%s:when=%d" % (err, n))
            if not hit:
                if q.rc == 0: c.count("faults not reached")
                else: c.count("strace trouble")
                break
            must_fail(c, inv, q, "an input cannot be read completely: read %d of %s fails (%s)" % (n, name, err))
    if c.tier != "quick" or c.index % 3 == 0:
        for n in (1, 2):                       # everything readable before, nothing after
            name = r.choice(inv.inputs)
            hit, q = inject(c, inv, name, "read:error=EIO:when=%d+" % n)
            if hit: must_fail(c, inv, q, "an input cannot be read completely: reads of %s fail from the %dth" % (name, n))
def writes(c):
    """The n-th write to the output, or its closing, fails."""
    if not strace_works(): c.count("strace is not usable"); return
    inv = ALL[c.index % len(ALL)]; r = c.rng
    big = c.index // len(ALL) % 2
    write_all(c, 12 if not big else SMALL if inv.tool in CUBIC else 1200)
    want = result(c, inv, variant="plain")
    def once(spec, what):
        if inv.out: hit, q = inject(c, inv, "out", spec); got = c.r("out") if c.exists("out") else b""
        else:
            with open(os.path.join(c.dir, "stdout"), "wb") as f: hit, q = inject(c, inv, "stdout", spec, stdout=f)
            got = c.r("stdout")
        if hit: must_fail(c, inv, q, what)
        elif q.rc == 0 and got != want: c.fail("%s: incomplete output with status 0" % inv.label, "incomplete-" + inv.tool)
        return hit
    for n in (1, 2, 3) if c.tier == "quick" else range(1, 12):
        err = r.choice(["ENOSPC", "EIO", "EDQUOT", "EFBIG", "EPIPE"])
        if not once("write:error=%s:when=%d" % (err, n), "the output cannot be written completely: write %d fails (%s)" % (n, err)): break
    if inv.out: once("close:error=%s:when=1" % r.choice(["EIO", "ENOSPC", "EDQUOT"]), "the output cannot be written completely: close fails")
    # a partial write is continued
    if inv.out: c.rm("out")
def slow(c):
    """Standard output through a pipe that takes few bytes at a time, and an input that comes in pieces: complete all the same."""
    inv = ALL[c.index % len(ALL)]
    write_all(c, SMALL if inv.tool in CUBIC else 300)
    want = result(c, inv, variant="plain")
    if inv.out: return
    exe = os.path.join(c.bins["plain"], inv.tool)
    p = subprocess.Popen([exe] + inv.args, cwd=c.dir, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env={"LC_ALL": "C.UTF-8"})
    try:
        import fcntl
        fcntl.fcntl(p.stdout.fileno(), 1031, 4096)
    except OSError: pass
    got = b""
    while True:
        b = os.read(p.stdout.fileno(), 100)
        if not b: break
        got += b
    p.stdout.close(); p.stderr.close()
    rc = p.wait(60)
    if rc != 0 or got != want: c.fail("%s: status %d or other output through a slow pipe" % (inv.label, rc), "pipe-" + inv.tool)
    c.count("complete results"); c.note((inv.label, "slow"), False)
N = len(ALL)
FAMILIES = {"opening": (opening, N, 3 * N, "fixed"), "devices": (devices, N, 4 * N, "fixed"), "sizes": (sizes, 2 * N, 20 * N), "reads": (reads, 2 * N, 12 * N), "writes": (writes, 2 * N, 12 * N), "slow": (slow, N, 4 * N)}
MIN_NONTRIVIAL = 300
