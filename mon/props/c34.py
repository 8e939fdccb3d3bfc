"""Interrupted runs."""
from props.alltools import *
import fcntl, os, signal, struct, subprocess, termios, time
import core
RULE = ("a case is one of 31 invocations (all 17 tools) stopped by SIGINT or SIGTERM while it waits for one of its inputs (a named pipe that has delivered nothing, a part, or all but its end), while it waits for somebody to read its output or to open its report file (a named pipe), at the very start, or at a random moment of a long run; "
        "status, promptness, output, report file and temporary files are judged against the complete result and the result of the part delivered; non-trivial: the signal arrived before the tool had ended")
VARIANTS = ("plain",)
LIMIT = 15.0      # seconds to end after a signal
def start(c, tool, args, stdout=subprocess.PIPE, stderr=subprocess.PIPE, before=signal.SIG_DFL):
    c.log.append("%s %s   (interrupted)" % (tool, core.quote(args)))
    p = subprocess.Popen([os.path.join(c.bins["plain"], tool)] + args, cwd=c.dir, env={"PATH": "/usr/bin:/bin", "LC_ALL": "C.UTF-8"},
                         stdin=subprocess.DEVNULL, stdout=stdout, stderr=stderr, preexec_fn=lambda: [signal.signal(s, before) for s in (signal.SIGINT, signal.SIGTERM)])
    c.n_runs += 1
    return p
def state(p):
    try: return open("/proc/%d/stat" % p.pid).read().rsplit(")", 1)[1].split()[0]
    except (OSError, IndexError): return "?"
def wait_idle(p, limit=20.0):
    """Until the process sleeps (three looks in a row) or has ended."""
    t0 = time.monotonic(); n = 0
    while time.monotonic() - t0 < limit:
        if p.poll() is not None: return False
        n = n + 1 if state(p) == "S" else 0
        if n >= 3: return True
        time.sleep(0.002)
    return False
def left(p, tool):
    return [n for n in os.listdir("/tmp") if n.startswith(".") and tool in n and str(p.pid) in n]
def ended(c, p, what, sig, drain=True):
    """Waits for the end; (out, err)."""
    try:
        if drain: out, err = p.communicate(timeout=LIMIT)
        else: p.wait(timeout=LIMIT); out, err = b"", b""
    except subprocess.TimeoutExpired:
        busy = state(p)
        p.kill(); p.communicate()
        c.fail("%s: still there %d s after %s (state %s)" % (what, LIMIT, sig.name, busy), "interrupt-hang")
    if p.returncode == 0: c.fail("%s: status 0 after %s" % (what, sig.name), "interrupt-status")
    if p.returncode < 0 and -p.returncode not in (signal.SIGINT, signal.SIGTERM, signal.SIGPIPE): c.fail("%s: died from signal %d after %s" % (what, -p.returncode, sig.name), "interrupt-crash")
    return out, err
def feeder(path, limit=30.0):
    """Opens a named pipe for writing once it has a reader."""
    t0 = time.monotonic()
    while time.monotonic() - t0 < limit:
        try: return os.open(path, os.O_WRONLY | os.O_NONBLOCK)
        except OSError: time.sleep(0.001)
    raise core.Inconclusive("nobody opens the pipe")
def unread(fd): return struct.unpack("i", fcntl.ioctl(fd, termios.FIONREAD, b"\0" * 4))[0]
def waiting(c):
    """While it waits for input."""
    inv = ALL[c.index % len(ALL)]; r = c.rng
    write_all(c, r.choice([3, 10, 20]))
    want = result(c, inv, variant="plain", quiet_err=True)
    if inv.out: c.rm(inv.out)
    for which in range(len([a for a in inv.args if a in FILES])):
        sig = r.choice([signal.SIGINT, signal.SIGTERM])
        n = -1; args = []; name = None
        for a in inv.args:
            if a in FILES: n += 1
            if a in FILES and n == which: args.append("fifo"); name = a
            else: args.append(a)
        data = c.r(name); kind = r.choice(["nothing", "part", "everything"])
        piece = {"nothing": b"", "part": data[:r.randint(0, len(data))], "everything": data}[kind]
        # what a tool that took the interruption for the end of the input would deliver
        c.w("piece", piece)
        cut = c.run(inv.tool, *["piece" if a == "fifo" else a for a in args], variant="plain", ok=None)
        cut_out = (c.r(inv.out) if c.exists(inv.out) else b"") if inv.out else cut.out
        if inv.out: c.rm(inv.out)
        c.rm("fifo"); os.mkfifo(os.path.join(c.dir, "fifo"))
        ignored = r.random() < 0.2           # as a shell starts its background jobs
        p = start(c, inv.tool, args, before=signal.SIG_IGN if ignored else signal.SIG_DFL)
        what = "%s, input %d delivered %s%s" % (inv.label, which + 1, kind, ", signals ignored before its start" if ignored else "")
        if ignored: c.count("started with signals ignored")
        try: fd = feeder(os.path.join(c.dir, "fifo"))
        except core.Inconclusive: p.kill(); p.communicate(); raise
        try:
            if piece:
                os.set_blocking(fd, True)
                try: os.write(fd, piece)
                except BrokenPipeError: pass
            t0 = time.monotonic()
            while unread(fd) and p.poll() is None and time.monotonic() - t0 < 10: time.sleep(0.001)
            if not wait_idle(p):
                if p.poll() is not None: p.communicate(); c.count("ended by itself"); continue      # the part delivered was refused at once
                p.kill(); p.communicate(); raise core.Inconclusive("never idle")
            for k in range(r.choice([1, 1, 1, 2, 5])):
                p.send_signal(sig if k == 0 else r.choice([signal.SIGINT, signal.SIGTERM]))
                if k: c.count("repeated signals")
            out, err = ended(c, p, what, sig)
        finally: os.close(fd)
        got = out
        if inv.out:
            if out: c.fail("%s: output %r" % (what, out[:100]), "interrupt-output")
            got = c.r(inv.out) if c.exists(inv.out) else b""
            c.rm(inv.out)
        if got and got in (want, cut_out): c.fail("%s: a complete result in spite of %s" % (what, sig.name), "interrupt-result")
        if got and not (want.startswith(got) or cut_out.startswith(got)): c.fail("%s: output %r" % (what, got[:200]), "interrupt-output")
        l = left(p, inv.tool)
        if l: c.fail("%s leaves %s" % (what, l), "interrupt-temporary")
        c.count("interrupted with input %s" % kind); c.count(sig.name); c.note((inv.label, which, kind, len(piece), sig), True, sample=[inv.label, which, kind, sig.name])
def big_output(c, tool, r):
    """(arguments, input names) whose output is far larger than a pipe holds."""
    if tool in ("wordfreq", "ngram", "accuracy", "accsum", "wordacc", "wordaccsum", "groupacc", "synctext", "vote"):
        ws = "\n".join("w" + "".join(chr(97 + int(d)) for d in "%d" % (i * 7)) + "x" * 12 for i in range(9000))
        c.w("t", ws)
        cs = "".join(chr(0x4E00 + i) for i in range(20000)); c.w("u", cs)
        if tool == "wordfreq": return ["t"]
        if tool == "ngram": return ["-n", "3", "u"]
        if tool == "accuracy": return ["u", "u"]
        if tool == "wordacc": return ["t", "t"]
        if tool in ("accsum", "groupacc"): c.run("accuracy", "u", "u", "a", variant="plain"); return ["a", "a"] if tool == "accsum" else ["u", "a"]
        if tool == "wordaccsum": c.run("wordacc", "t", "t", "b", variant="plain"); return ["b", "b"]
        return ["t", "t"]
def reader_gone(c):
    """While nobody reads the output."""
    r = c.rng
    tool = ["wordfreq", "ngram", "accuracy", "wordacc", "accsum", "wordaccsum", "synctext", "vote"][c.index % 8]
    args = big_output(c, tool, r)
    want = c.run(tool, *args, variant="plain", quiet_err=True).out
    sig = [signal.SIGINT, signal.SIGTERM][c.index // 8 % 2]
    what = "%s, output not read" % tool
    p = start(c, tool, args)
    # some of it is read first
    head = os.read(p.stdout.fileno(), r.choice([1, 100, 4096])) if r.random() < 0.6 else b""
    if not wait_idle(p) or len(want) < 90000: p.kill(); p.communicate(); raise core.Inconclusive("%s does not wait for its reader" % tool)
    p.send_signal(sig)
    if c.index // 16 % 2 == 0:
        ended(c, p, what, sig, drain=False)          # without anybody reading
        out = p.stdout.read(); p.stderr.close(); c.count("ended with its output unread")
    else:
        out, err = ended(c, p, what, sig); c.count("ended with its output read later")
    out = head + out
    if out == want: c.fail("%s: complete output in spite of %s" % (what, sig.name), "interrupt-result")
    l = left(p, tool)
    if l: c.fail("%s leaves %s" % (what, l), "interrupt-temporary")
    c.count(sig.name); c.note((tool, sig, c.index, len(out)), True, sample=[tool, sig.name, "%d of %d bytes delivered" % (len(out), len(want))])
def report_file(c):
    """While a report file cannot be opened, or is not emptied: a named pipe without a reader, or with one that does not read."""
    r = c.rng
    tool = ["accuracy", "wordacc", "groupacc", "vote", "editop"][c.index % 5]
    sig = [signal.SIGINT, signal.SIGTERM][c.index // 5 % 2]
    kind = ["no reader", "idle reader"][c.index // 10 % 2]
    if tool == "editop": write_all(c, 20); args = ["t0", "t1"]; kind = "no reader"       # its report fits into a pipe
    else: args = big_output(c, tool, r)
    want = c.run(tool, *args, variant="plain", quiet_err=True).out
    pipe = os.path.join(c.dir, "pipe"); os.mkfifo(pipe)
    rd = os.open(pipe, os.O_RDONLY | os.O_NONBLOCK) if kind == "idle reader" else None
    what = "%s, report into a pipe with %s" % (tool, kind)
    p = start(c, tool, (["-o", "pipe"] + args if tool == "vote" else args + ["pipe"]))
    try:
        t0 = time.monotonic()
        while not wait_idle(p, 1) and p.poll() is None and time.monotonic() - t0 < 30: pass
        if p.poll() is not None: p.communicate(); raise core.Inconclusive("%s does not wait" % what)
        if rd is not None:
            t0 = time.monotonic()
            while not unread(rd) and time.monotonic() - t0 < 20: time.sleep(0.002)
            if unread(rd) >= len(want): p.kill(); p.communicate(); raise core.Inconclusive("the report fits into the pipe")
        p.send_signal(sig)
        if r.random() < 0.3: p.send_signal(r.choice([signal.SIGINT, signal.SIGTERM])); c.count("repeated signals")
        out, err = ended(c, p, what, sig)
        if out: c.fail("%s: output %r" % (what, out[:100]), "interrupt-output")
        if rd is not None:
            got = b""
            while True:
                b = os.read(rd, 1 << 20)
                if not b: break
                got += b
            if got == want: c.fail("%s: complete report in spite of %s" % (what, sig.name), "interrupt-result")
            if not want.startswith(got): c.fail("%s: report %r" % (what, got[-200:]), "interrupt-output")
        l = left(p, tool)
        if l: c.fail("%s leaves %s" % (what, l), "interrupt-temporary")
    finally:
        if p.poll() is None: p.kill(); p.communicate()
        if rd is not None: os.close(rd)
    c.count("interrupted, " + kind); c.count(sig.name); c.note((tool, sig, kind, c.index), True, sample=[tool, sig.name, kind])
def moment(c):
    """At a random moment of a longer run: killed, or complete."""
    r = c.rng
    inv = ALL[c.index % len(ALL)]
    write_all(c, 200 if inv.tool not in ("vote", "synctext", "editop") else 60)
    t0 = time.monotonic()
    want = result(c, inv, variant="plain", quiet_err=True)
    d = time.monotonic() - t0
    for _ in range(6):
        if inv.out: c.rm(inv.out)
        sig = r.choice([signal.SIGINT, signal.SIGTERM])
        p = start(c, inv.tool, inv.args)
        time.sleep(r.random() * d * 1.2)
        p.send_signal(sig)
        what = "%s at a random moment" % inv.label
        try: out, err = p.communicate(timeout=LIMIT + 10)
        except subprocess.TimeoutExpired:
            p.kill(); p.communicate(); c.fail("%s: still there after %s" % (what, sig.name), "interrupt-hang")
        got = (c.r(inv.out) if c.exists(inv.out) else b"") if inv.out else out
        if p.returncode == 0:
            c.same(got, want, "%s: status 0" % what); c.count("complete before the signal")
        else:
            if p.returncode < 0 and -p.returncode not in (signal.SIGINT, signal.SIGTERM): c.fail("%s: died from signal %d" % (what, -p.returncode), "interrupt-crash")
            c.count("interrupted at random")
        l = left(p, inv.tool)
        if l: c.fail("%s leaves %s" % (what, l), "interrupt-temporary")
    c.note((inv.label, "moment", c.index), True)
def compute(c):
    """In the middle of a long computation."""
    r = c.rng
    tool = ["vote", "editop", "synctext", "synctext", "accuracy"][c.index % 5]
    n = {"vote": 6000, "editop": 6000, "synctext": 6000, "accuracy": 30000}[tool]
    for i in range(3): c.w("t%d" % i, "".join(r.choice("abcdefgh") for _ in range(n)))
    args = {"vote": ["t0", "t1", "t2"], "editop": ["t0", "t1"], "synctext": ["-T", "t0", "t1"] if c.index % 5 == 2 else ["-H", "t0", "t1", "t2"], "accuracy": ["t0", "t1"]}[tool]
    sig = r.choice([signal.SIGINT, signal.SIGTERM])
    p = start(c, tool, args)
    t0 = time.monotonic()
    while (core._cpu_of(p.pid) or 0) < 0.05 + r.random() * 0.3 and p.poll() is None and time.monotonic() - t0 < 20: time.sleep(0.01)
    if p.poll() is not None: p.communicate(); c.count("ended by itself"); return
    p.send_signal(sig)
    out, err = ended(c, p, "%s in a long computation" % tool, sig)
    if out: c.fail("%s in a long computation: output %r" % (tool, out[:100]), "interrupt-output")
    if left(p, tool): c.fail("%s leaves temporary files" % tool, "interrupt-temporary")
    c.count("interrupted while computing"); c.note((tool, args, sig, c.index), True)
def again(c):
    """A second signal while the message about the first cannot be written."""
    inv = ALL[c.index % len(ALL)]; r = c.rng
    write_all(c, 5)
    which = r.choice([a for a in inv.args if a in FILES])
    os.mkfifo(os.path.join(c.dir, "fifo")); args = [("fifo" if a == which else a) for a in inv.args]
    rd, wr = os.pipe()
    fcntl.fcntl(wr, 1031, 4096)                                  # F_SETPIPE_SZ
    os.set_blocking(wr, False)
    try:
        while os.write(wr, b"." * 4096): pass
    except BlockingIOError: pass
    os.set_blocking(wr, True)
    p = start(c, inv.tool, args, stderr=wr); os.close(wr)
    what = "%s, messages not read" % inv.label; fd = None
    try:
        fd = feeder(os.path.join(c.dir, "fifo"))
        if not wait_idle(p): raise core.Inconclusive("never idle")
        seq = r.choice([(signal.SIGINT, signal.SIGTERM), (signal.SIGTERM, signal.SIGINT), (signal.SIGTERM, signal.SIGINT, signal.SIGTERM)])
        for sig in seq:
            p.send_signal(sig)
            wait_idle(p, 3)
        os.set_blocking(rd, False)
        out = b""
        t0 = time.monotonic()
        while p.poll() is None and time.monotonic() - t0 < LIMIT:
            try: os.read(rd, 65536)
            except BlockingIOError: pass
            time.sleep(0.002)
        if p.poll() is None: c.fail("%s: still there after %s" % (what, seq), "interrupt-hang")
        out = p.stdout.read()
        if p.returncode == 0: c.fail("%s: status 0 after %s" % (what, [q.name for q in seq]), "interrupt-status")
        if out: c.fail("%s: output %r" % (what, out[:100]), "interrupt-output")
        if p.returncode < 0 and -p.returncode not in (signal.SIGINT, signal.SIGTERM): c.fail("%s: died from signal %d" % (what, -p.returncode), "interrupt-crash")
    finally:
        if p.poll() is None: p.kill()
        p.stdout.close(); p.wait(); os.close(rd)
        if fd is not None: os.close(fd)
    c.count("signals while the message waits", len(seq)); c.note((inv.label, "again", which, seq), True, sample=[inv.label, which, [q.name for q in seq]])
N = len(ALL)
FAMILIES = {"waiting": (waiting, 8 * N, 60 * N), "unread": (reader_gone, 32, 160), "report_file": (report_file, 40, 160), "moment": (moment, 2 * N, 20 * N), "compute": (compute, 20, 150), "again": (again, N, 4 * N)}
BIG = ("unread", "report_file", "compute")
MIN_NONTRIVIAL = 150
