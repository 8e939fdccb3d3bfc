"""Reference models: the text reader, alignments, the reports and the statistics, written from the
documentation of the tools and independent of their algorithms."""
import itertools, math, os, re, sys
from functools import lru_cache
import u8

sys.setrecursionlimit(100000)
WILD = ord("~")
TITLE = b"ocreval Vendor-Independent Interface Version "
DIVIDER = b"-" * 48 + b"\n"

class Bad(Exception):
    """An output that cannot be what it should be."""

# ---------------------------------------------------------------- text
def skip_header(data):
    """(body, found)"""
    if not data.startswith(TITLE): return data, False
    pos = data.find(b"\n") + 1
    if pos == 0: return b"", True
    n = 0
    while n < 2 and pos < len(data):
        e = data.find(b"\n", pos)
        e = len(data) if e < 0 else e + 1
        if data[pos:e] == DIVIDER: n += 1
        pos = e
    return data[pos:], True

def read_text(data, header=True, markers=True, normalize=True, lower=False):
    """[(code point, suspect)], header found.  Raises UnicodeDecodeError for bad UTF-8."""
    found = False
    if header: data, found = skip_header(data)
    s = data.decode("utf-8")
    chars, suspect = [], False
    for ch in s:
        if markers and ch == "^": suspect = True
        else:
            chars.append((ord(ch), suspect)); suspect = False
    if normalize: chars = normalise(chars)
    if lower: chars = [(u8.lower(c), q) for c, q in chars]
    return chars, found

def normalise(chars):
    """Blank lines and surplus blanks removed; a surviving blank is suspect if any of its run is."""
    out, line = [], []
    def flush(nl):
        res, run = [], None
        for c, q in line:
            if u8.is_blank(c): run = (run or False) or q
            else:
                if run is not None and res: res.append((32, run))
                run = None
                res.append((c, q))
        if res:
            out.extend(res)
            if nl is not None: out.append(nl)
    for c, q in chars:
        if c == 10:
            flush((c, q)); line = []
        else: line.append((c, q))
    flush(None)
    return out

def cps(chars): return [c for c, _ in chars]
def raw(chars, suspects=False):
    """Characters as the tools display them (synctext)."""
    return "".join(u8.render(c, suspects and q) for c, q in chars)

def written(chars):
    """A text file of these characters, as vote writes it; bytes."""
    return "".join("^" * bool(q) + chr(c) for c, q in chars).encode()

# ---------------------------------------------------------------- distances
def lev(a, b, wild=WILD):
    """Edit distance, bit-parallel (Myers/Hyyro); wild never matches."""
    if not a: return len(b)
    if not b: return len(a)
    peq = {}
    for i, x in enumerate(a):
        if x != wild: peq[x] = peq.get(x, 0) | (1 << i)
    m = len(a); mask = (1 << m) - 1; top = 1 << (m - 1)
    pv, mv, score = mask, 0, m
    for y in b:
        eq = peq.get(y, 0)
        xv = eq | mv
        xh = (((eq & pv) + pv) ^ pv) | eq
        ph = mv | ~(xh | pv) & mask
        mh = pv & xh
        if ph & top: score += 1
        if mh & top: score -= 1
        ph = ((ph << 1) | 1) & mask
        mh = (mh << 1) & mask
        pv = mh | ~(xv | ph) & mask
        mv = ph & xv
    return score

def lcs_len(a, b):
    """Length of a longest common subsequence, bit-parallel."""
    if not a or not b: return 0
    peq = {}
    for i, x in enumerate(a): peq[x] = peq.get(x, 0) | (1 << i)
    mask = (1 << len(a)) - 1
    v = mask
    for y in b:
        u = v & peq.get(y, 0)
        v = ((v + u) | (v - u)) & mask
    return len(a) - bin(v).count("1")

def lcs_sets(a, b, cap=4000):
    """All sets of positions of a matched by some maximum common subsequence, or None if too many."""
    n, m = len(a), len(b)
    L = [[0] * (m + 1) for _ in range(n + 1)]
    for i in range(n - 1, -1, -1):
        for j in range(m - 1, -1, -1):
            L[i][j] = L[i+1][j+1] + 1 if a[i] == b[j] else max(L[i+1][j], L[i][j+1])
    memo = {}
    count = [0]
    def go(i, j):
        if L[i][j] == 0: return {frozenset()}
        k = (i, j)
        if k in memo: return memo[k]
        r = set()
        if L[i+1][j] == L[i][j]: r |= go(i + 1, j)
        # match a[i] with its first occurrence in b[j:] (any other leaves no more room)
        for jj in range(j, m):
            if a[i] == b[jj]:
                if L[i+1][jj+1] + 1 == L[i][j]:
                    r |= {s | {i} for s in go(i + 1, jj + 1)}
                break
        memo[k] = r
        count[0] += len(r)
        if count[0] > cap: raise OverflowError
        return r
    try: return go(0, 0)
    except OverflowError: return None

def lcstr_len(xs, ys, wild=WILD):
    """Length of a longest common contiguous run without wild."""
    best = 0
    prev = [0] * (len(ys) + 1)
    for x in xs:
        cur = [0] * (len(ys) + 1)
        if x != wild:
            for j, y in enumerate(ys):
                if x == y:
                    cur[j+1] = prev[j] + 1
                    if cur[j+1] > best: best = cur[j+1]
        prev = cur
    return best

def lcstr_occ(xs, ys, wild=WILD):
    """(length, [(start in xs, start in ys)]) of all longest common contiguous runs."""
    best, occ = 0, []
    prev = [0] * (len(ys) + 1)
    for i, x in enumerate(xs):
        cur = [0] * (len(ys) + 1)
        if x != wild:
            for j, y in enumerate(ys):
                if x == y:
                    l = cur[j+1] = prev[j] + 1
                    if l > best: best, occ = l, []
                    if l == best: occ.append((i - l + 1, j - l + 1))
        prev = cur
    return best, occ

# ---------------------------------------------------------------- synctext output
SEP = "=" * 79
_tok = re.compile(r"\{(\d+)\}|(\^?)(?:<([0-9A-F]{2,6})>|\u25cc(?=(.))(?:(?P<m>.))|(.))", re.S)

def detoken(s, suspects=False):
    """Rendered text -> [(cp, suspect)] or ('fn', n) items.  '^' is only a marker with suspects."""
    out, i = [], 0
    while i < len(s):
        q = False
        if s[i] == "{":
            j = s.find("}", i)
            if j < 0 or not s[i+1:j].isdigit(): raise Bad("bad footnote in %r" % s[i:i+20])
            out.append(("fn", int(s[i+1:j]))); i = j + 1; continue
        if suspects and s[i] == "^":
            q = True; i += 1
            if i >= len(s): raise Bad("marker at end")
        ch = s[i]
        if ch == "<":
            j = s.find(">", i)
            if j < 0 or not re.fullmatch(r"[0-9A-F]{2,6}", s[i+1:j]): raise Bad("bad escape in %r" % s[i:i+12])
            out.append((int(s[i+1:j], 16), q)); i = j + 1
        elif ch == "\u25cc" and i + 1 < len(s) and u8.is_mark(ord(s[i+1])):
            out.append((ord(s[i+1]), q)); i += 2
        else:
            out.append((ord(ch), q)); i += 1
    return out

def parse_sync(out, names, suspects=False):
    """Regions of synctext's ordinary output: ('m', chars) and ('d', [chars of each file])."""
    text = out.decode("utf-8")
    head = SEP + "\n\n"
    if not text.startswith(head) or not text.endswith(SEP + "\n"): raise Bad("no frame")
    body = text[len(head):]
    k = body.find("\n" + SEP + "\n")
    if k < 0: raise Bad("no end of matches")
    matched, rest = body[:k], body[k+1:]
    width = max(len(n.encode()) for n in names)
    pad = " " * (width + 2)
    diffs = []
    while True:
        if rest == SEP + "\n": break
        h = SEP + "\n{%d}\n" % (len(diffs) + 1)
        if not rest.startswith(h): raise Bad("expected difference %d at %r" % (len(diffs) + 1, rest[:100]))
        rest = rest[len(h):]
        mem = []
        for n in names:
            h = n + " " * (width - len(n.encode())) + " {"
            if not rest.startswith(h): raise Bad("expected %r at %r" % (h, rest[:60]))
            e = rest.find("}\n", len(h))
            if e < 0: raise Bad("unterminated difference")
            c = rest[len(h):e]
            rest = rest[e+2:]
            parts = c.split("\n")
            for i in range(1, len(parts)):
                if not parts[i].startswith(pad): raise Bad("bad indent in %r" % c)
                parts[i] = parts[i][len(pad):]
            mem.append(detoken("\n".join(parts), suspects))
        diffs.append(mem)
    regions, cur, n = [], [], 0
    for t in detoken(matched, suspects):
        if t[0] == "fn":
            n += 1
            if t[1] != n or n > len(diffs): raise Bad("footnote %r out of order" % (t,))
            if cur: regions.append(("m", cur)); cur = []
            regions.append(("d", diffs[n-1]))
        else: cur.append(t)
    if cur: regions.append(("m", cur))
    if n != len(diffs): raise Bad("%d footnotes, %d differences" % (n, len(diffs)))
    return regions

def check_regions(regions, texts):
    """Losslessness of an alignment (code points); returns spans [(kind, [(start, stop) per text])]."""
    pos = [0] * len(texts)
    spans, prev = [], None
    for kind, val in regions:
        if kind == "m":
            v = cps(val)
            if WILD in v: raise Bad("a reject character is matched")
            sp = []
            for i, t in enumerate(texts):
                if t[pos[i]:pos[i]+len(v)] != v:
                    raise Bad("matched run %r is not in text %d at %d" % (raw(val), i + 1, pos[i]))
                sp.append((pos[i], pos[i] + len(v))); pos[i] += len(v)
        else:
            if prev == "d": raise Bad("adjacent differences")
            if not any(val): raise Bad("empty difference")
            sp = []
            for i, t in enumerate(texts):
                v = cps(val[i])
                if t[pos[i]:pos[i]+len(v)] != v:
                    raise Bad("difference member %r is not in text %d at %d" % (raw(val[i]), i + 1, pos[i]))
                sp.append((pos[i], pos[i] + len(v))); pos[i] += len(v)
        spans.append((kind, sp)); prev = kind
    for i, t in enumerate(texts):
        if pos[i] != len(t): raise Bad("text %d is not shown completely (%d of %d)" % (i + 1, pos[i], len(t)))
    return spans

def region_cost(spans):
    return sum(max(e - s for s, e in sp) for k, sp in spans if k == "d")

def parse_transposed(out):
    """Two lists of (number or None, cps)."""
    text = out.decode("utf-8")
    if not text.endswith(SEP + "\n"): raise Bad("no final separator")
    parts = text[:-len(SEP) - 1].split(SEP + "\n\n")
    if len(parts) != 3 or parts[0]: raise Bad("no frame")
    res = []
    for p in parts[1:]:
        if not p.endswith("\n"): raise Bad("no line end")
        p = p[:-1]
        items, i = [], 0
        while i < len(p):
            if p[i] == "{":
                e = p.find("}", i); c = p.find(":", i, e if e > 0 else i)
                if e < 0 or c < 0 or not p[i+1:c].isdigit(): raise Bad("bad block at %r" % p[i:i+20])
                items.append((int(p[i+1:c]), cps(detoken(p[c+1:e])))); i = e + 1
            else:
                e = p.find("{", i)
                e = len(p) if e < 0 else e
                items.append((None, cps(detoken(p[i:e])))); i = e
        res.append(items)
    return res

# ---------------------------------------------------------------- heuristic alignment
def check_heuristic(spans, texts, budget=20000):
    """Is the alignment one that longest-match-first recursion can produce?  None: gave up."""
    k = len(texts)
    blocks = [tuple(s for s, _ in sp) + (sp[0][1] - sp[0][0],) for kind, sp in spans if kind == "m"]
    work = [0]
    @lru_cache(maxsize=None)
    def outcomes(starts, stops):
        """Possible first choices in a range: set of (starts..., length), or empty for none."""
        res = set(); none = False
        if any(a >= b for a, b in zip(starts, stops)): return frozenset(), True
        fr = {((starts[0],), stops[0] - starts[0])}
        for i in range(1, k):
            nxt = set()
            for st, ln in fr:
                work[0] += ln * (stops[i] - starts[i])
                l, occ = lcstr_occ(texts[0][st[0]:st[0]+ln], texts[i][starts[i]:stops[i]])
                if l == 0: none = True; continue
                for x, y in occ:
                    nxt.add((tuple(s + x for s in st) + (starts[i] + y,), l))
            fr = nxt
            if len(fr) > 400: raise OverflowError
        return frozenset(st + (ln,) for st, ln in fr), none
    def ok(starts, stops, lo, hi):
        poss, none = outcomes(starts, stops)
        if work[0] > budget * 1000: raise OverflowError
        if lo == hi: return none
        for i in range(lo, hi):
            b = blocks[i]
            if b in poss:
                if ok(starts, b[:k], lo, i) and ok(tuple(x + b[k] for x in b[:k]), stops, i + 1, hi): return True
        return False
    try: return ok(tuple([0] * k), tuple(len(t) for t in texts), 0, len(blocks))
    except OverflowError: return None

# ---------------------------------------------------------------- editop
def editop_moves(order, lengths, cap=20000):
    """Possible multisets of move lengths when blocks are moved greedily.  order: block numbers (1-based
    ranks) as they occur in the second text; lengths: {number: length}.  None: too many."""
    def combine(seq):
        seq = list(seq)
        i = 0
        while i + 1 < len(seq):
            if seq[i+1][0] == seq[i][0] + 1:
                n = seq[i+1][0]
                seq[i] = (seq[i][0], seq[i][1] + seq[i+1][1])
                del seq[i+1]
                seq = [(a - 1 if a >= n else a, l) for a, l in seq]
            else: i += 1
        return tuple(seq)
    rank = {n: i + 1 for i, n in enumerate(sorted(order))}
    start = combine([(rank[n], lengths[n]) for n in order])
    seen, res, todo, n = set(), set(), [(start, ())], 0
    while todo:
        st = todo.pop()
        if st in seen: continue
        seen.add(st); n += 1
        if n > cap: return None
        seq, moves = st
        if len(seq) <= 1: res.add(tuple(sorted(moves))); continue
        best, cands = None, []
        for i in range(len(seq)):
            num, ln = seq[i]
            rest = [x for x in seq if x[0] != num]
            if num == 1: at = [x[0] for x in rest].index(2)
            else: at = [x[0] for x in rest].index(num - 1) + 1
            new = combine(rest[:at] + [seq[i]] + rest[at:])
            key = (len(seq) - len(new), -ln)
            if best is None or key > best: best, cands = key, []
            if key == best: cands.append((new, ln))
        for new, ln in cands: todo.append((new, tuple(sorted(moves + (min(ln, 100),)))))
    return res

def editop_moves_first(order, lengths):
    """As editop_moves, with ties broken by the lowest block number (linear use for long lists)."""
    r = editop_moves(order, lengths, cap=400)
    return r

# ---------------------------------------------------------------- reports
_here = os.path.dirname(os.path.abspath(__file__))
CLASS_RANGES, CLASS_NAMES = [], []
for _l in open(os.path.join(_here, "data", "charclass.txt")):
    if _l[0] == "#": continue
    _a, _b, _n = _l.rstrip("\n").split(" ", 2)
    CLASS_RANGES.append((int(_a, 16), int(_b, 16), _n))
    if _n not in CLASS_NAMES: CLASS_NAMES.append(_n)
@lru_cache(maxsize=1 << 17)
def charclass(cp):
    r = CLASS_NAMES[0]
    for a, b, n in CLASS_RANGES:
        if a <= cp <= b: r = n
    return CLASS_NAMES.index(r)

ACC_TITLE = "ocreval Accuracy Report Version "
WAC_TITLE = "ocreval Word Accuracy Report Version "
EDO_TITLE = "ocreval Edit Operation Report Version "
VERSION = "7.0"

def pct(num, den): return "  ------" if den == 0 else "%8.2f" % (100.0 * num / den)

class Acc:
    """Contents of an accuracy report."""
    def __init__(s):
        s.characters = s.errors = s.rejects = s.suspects = s.false = 0
        s.marked, s.unmarked, s.total = [0] * 4, [0] * 4, [0] * 4
        s.chars = {}   # cp -> [count, missed]
        s.conf = {}    # key -> [errors, marked]
    def add_char(s, cp, count, missed):
        e = s.chars.setdefault(cp, [0, 0]); e[0] += count; e[1] += missed
    def add_conf(s, key, errors, marked):
        e = s.conf.setdefault(key, [0, 0]); e[0] += errors; e[1] += marked
    def add(s, o):
        s.characters += o.characters; s.errors += o.errors
        s.rejects += o.rejects; s.suspects += o.suspects; s.false += o.false
        for a, b in ((s.marked, o.marked), (s.unmarked, o.unmarked), (s.total, o.total)):
            for i in range(4): a[i] += b[i]
        for c, (x, y) in o.chars.items(): s.add_char(c, x, y)
        for k, (x, y) in o.conf.items(): s.add_conf(k, x, y)
        return s
    def text(s):
        o = [ACC_TITLE + VERSION, "-" * 35, "%8d   Characters" % s.characters, "%8d   Errors" % s.errors,
             pct(s.characters - s.errors, s.characters) + "%  Accuracy", "",
             "%8d   Reject Characters" % s.rejects, "%8d   Suspect Markers" % s.suspects, "%8d   False Marks" % s.false,
             pct(s.rejects + s.suspects, s.characters) + "%  Characters Marked",
             pct(s.characters - s.unmarked[3], s.characters) + "%  Accuracy After Correction", "",
             "     Ins    Subst      Del   Errors"]
        for v, n in ((s.marked, "Marked"), (s.unmarked, "Unmarked"), (s.total, "Total")):
            o.append("%8d %8d %8d %8d   %s" % (*v, n))
        o += ["", "   Count   Missed   %Right"]
        cl = {}
        for c, (x, y) in s.chars.items():
            e = cl.setdefault(charclass(c), [0, 0]); e[0] += x; e[1] += y
        line = lambda x, y, t: "%8d %8d %s   %s" % (x, y, pct(x - y, x), t)
        for k in sorted(cl):
            if cl[k][0] > 0: o.append(line(*cl[k], CLASS_NAMES[k]))
        o.append(line(sum(v[0] for v in cl.values()), sum(v[1] for v in cl.values()), "Total"))
        if s.errors > 0:
            o += ["", "  Errors   Marked   Correct-Generated"]
            for k, (x, y) in sorted(s.conf.items(), key=lambda kv: (-kv[1][0], -kv[1][1], kv[0].encode("utf-8", "surrogatepass"))):
                o.append("%8d %8d   %s" % (x, y, k))
        if s.characters > 0:
            o += ["", "   Count   Missed   %Right"]
            for c in sorted(s.chars):
                if s.chars[c][0] > 0: o.append(line(*s.chars[c], "{%s}" % u8.render(c, fake=True)))
        return ("\n".join(o) + "\n").encode("utf-8", "surrogatepass")

def conf_side(chars):
    b = ""
    for c, _ in chars:
        r = u8.render(c, fake=True)
        if len(b.encode()) + len(r.encode()) > 24: return b + "..."
        b += r
    return b

def acc_from_regions(regions, gen_suspects):
    """The accuracy report that an alignment (first text correct, second generated) implies.
    gen_suspects: suspect flags of the generated text, in order."""
    a = Acc(); pos = 0
    for kind, val in regions:
        cor, gen = (val, val) if kind == "m" else val
        gq = gen_suspects[pos:pos+len(gen)]; pos += len(gen)
        wild = sum(1 for c, _ in cor if c == WILD)
        n = len(cor) - wild
        a.characters += n
        for c, _ in cor:
            if c != WILD: a.add_char(c, 1, 0 if kind == "m" else 1)
        rej = sum(1 for c, _ in gen if c == WILD)
        sus = sum(1 for (c, _), q in zip(gen, gq) if c != WILD and q)
        a.rejects += rej; a.suspects += sus
        if kind == "m": a.false += sus; continue
        g = max(0, len(gen) - wild)
        err = max(n, g)
        if err == 0: continue
        a.errors += err
        ops = [max(0, n - g), min(n, g), max(0, g - n), err]
        mk = rej + sus > 0
        for t in (a.total, a.marked if mk else a.unmarked):
            for i in range(4): t[i] += ops[i]
        a.add_conf("{%s}-{%s}" % (conf_side(cor), conf_side(gen)), err, err if mk else 0)
    return a

_num = r"-?\d+"
def parse_acc(data):
    """Strict parse of an accuracy report."""
    t = data.decode("utf-8", "surrogatepass")
    if not t.endswith("\n"): raise Bad("no final newline")
    L = t[:-1].split("\n")
    a = Acc(); it = iter(L)
    def nxt(): 
        try: return next(it)
        except StopIteration: raise Bad("report ends early")
    def val(label):
        l = nxt(); m = re.fullmatch(r" *(%s)   %s" % (_num, re.escape(label)), l)
        if not m: raise Bad("expected %s: %r" % (label, l))
        return int(m.group(1))
    if not nxt().startswith(ACC_TITLE): raise Bad("title")
    if nxt() != "-" * 35: raise Bad("divider")
    a.characters = val("Characters"); a.errors = val("Errors")
    nxt(); nxt()
    a.rejects = val("Reject Characters"); a.suspects = val("Suspect Markers"); a.false = val("False Marks")
    for _ in range(4): nxt()
    for tgt, lab in ((a.marked, "Marked"), (a.unmarked, "Unmarked"), (a.total, "Total")):
        l = nxt(); m = re.fullmatch(r" *(%s) +(%s) +(%s) +(%s)   %s" % (_num, _num, _num, _num, lab), l)
        if not m: raise Bad("ops: %r" % l)
        tgt[:] = [int(x) for x in m.groups()]
    nxt(); nxt()
    a.classes = []
    while True:
        l = nxt(); m = re.fullmatch(r" *(%s) +(%s) +(\S+)   (.*)" % (_num, _num), l)
        if not m: raise Bad("class: %r" % l)
        a.classes.append((m.group(4), int(m.group(1)), int(m.group(2))))
        if m.group(4) == "Total": break
    rest = list(it)
    i = 0
    if a.errors > 0:
        if rest[i:i+2] != ["", "  Errors   Marked   Correct-Generated"]: raise Bad("confusions: %r" % rest[i:i+2])
        i += 2
        while i < len(rest) and rest[i] != "":
            m = re.fullmatch(r" *(%s) +(%s)   (.*)" % (_num, _num), rest[i])
            if not m: raise Bad("confusion: %r" % rest[i])
            if m.group(3) in a.conf: raise Bad("confusion listed twice: %r" % rest[i])
            a.add_conf(m.group(3), int(m.group(1)), int(m.group(2))); i += 1
    if a.characters > 0:
        if rest[i:i+2] != ["", "   Count   Missed   %Right"]: raise Bad("characters: %r" % rest[i:i+2])
        i += 2
        while i < len(rest):
            m = re.fullmatch(r" *(%s) +(%s) +(\S+)   \{(.*)\}" % (_num, _num), rest[i])
            if not m: raise Bad("character: %r" % rest[i])
            c = unrender(m.group(4))
            if c in a.chars: raise Bad("character listed twice: %r" % rest[i])
            a.add_char(c, int(m.group(1)), int(m.group(2))); i += 1
    if i != len(rest): raise Bad("trailing lines: %r" % rest[i:i+3])
    return a

def unrender(s):
    if s == "<\\n>": return 10
    if len(s) > 1 and s[0] == "<":
        m = re.fullmatch(r"<([0-9A-F]{2,6})>", s)
        if not m: raise Bad("character %r" % s)
        return int(m.group(1), 16)
    if len(s) == 2 and s[0] == "\u25cc": return ord(s[1])
    if len(s) != 1: raise Bad("character %r" % s)
    return ord(s)

# ---------------------------------------------------------------- words
_NL = ("CR", "LF", "Newline")
_EF = ("Extend", "Format")
_AH = ("ALetter", "Hebrew_Letter")
_MNLQ = ("MidNumLet", "Single_Quote")

def segments(text):
    """UAX #29 (Unicode 8) word segments: list of lists of code points.  Written from the rules, one
    decision per position, on the sequence of bases that WB4 leaves."""
    n = len(text)
    if n == 0: return []
    P = [u8.WB.get(c, "Other") for c in text]
    # WB4: attach Extend/Format to what precedes, except at start of text and after newlines
    base = []            # indices of positions that begin a unit
    for i in range(n):
        if P[i] in _EF and base and P[i-1] not in _NL: continue
        base.append(i)
    B = [P[i] for i in base]
    k = len(base)
    g = lambda i: B[i] if 0 <= i < k else None
    cuts = [0]
    for i in range(1, k):
        pp, p, q, r = g(i - 2), B[i-1], B[i], g(i + 1)
        if p == "CR" and q == "LF": join = True
        elif p in _NL or q in _NL: join = False
        elif p in _AH and q in _AH: join = True
        elif p in _AH and (q == "MidLetter" or q in _MNLQ) and r in _AH: join = True
        elif pp in _AH and (p == "MidLetter" or p in _MNLQ) and q in _AH: join = True
        elif p == "Hebrew_Letter" and q == "Single_Quote": join = True
        elif p == "Hebrew_Letter" and q == "Double_Quote" and r == "Hebrew_Letter": join = True
        elif pp == "Hebrew_Letter" and p == "Double_Quote" and q == "Hebrew_Letter": join = True
        elif p == "Numeric" and q == "Numeric": join = True
        elif p in _AH and q == "Numeric": join = True
        elif p == "Numeric" and q in _AH: join = True
        elif pp == "Numeric" and (p == "MidNum" or p in _MNLQ) and q == "Numeric": join = True
        elif p == "Numeric" and (q == "MidNum" or q in _MNLQ) and r == "Numeric": join = True
        elif p == "Katakana" and q == "Katakana": join = True
        elif (p in _AH or p in ("Numeric", "Katakana", "ExtendNumLet")) and q == "ExtendNumLet": join = True
        elif p == "ExtendNumLet" and (q in _AH or q in ("Numeric", "Katakana", "ExtendNumLet")): join = True
        elif p == "Regional_Indicator" and q == "Regional_Indicator": join = True
        else: join = False
        if not join: cuts.append(i)
    res = []
    for a, b in zip(cuts, cuts[1:] + [k]):
        res.append(text[base[a]:(base[b] if b < k else n)])
    return res

def words(text):
    """Words (bytes) of a list of (already lower-cased) code points."""
    return [u8.nfc_bytes("".join(map(chr, s)).encode()) for s in segments(text) if u8.is_word_start(s[0])]

def words_of(data, header=True, markers=True):
    return words(cps(read_text(data, header, markers, True, True)[0]))

DEFAULT_STOPWORDS = frozenset(l.strip().encode() for l in open(os.path.join(_here, "data", "stopwords.txt")))

class Wac:
    def __init__(s):
        s.total = [0, 0]
        s.stop, s.non = {}, {}             # length -> [count, missed]
        s.distinct = {}                    # occurrences (11: more than 10) -> [count, missed]
        s.phrase = {}
        s.stop_terms, s.non_terms = {}, {} # word bytes -> [count, missed]
    @staticmethod
    def _inc(d, k, c, m):
        e = d.setdefault(k, [0, 0]); e[0] += c; e[1] += m
    @classmethod
    def make(cls, ws, recognised, stopwords):
        s = cls()
        terms = {}
        for i, w in enumerate(ws): cls._inc(terms, w, 1, 0 if i in recognised else 1)
        for w, (c, m) in terms.items():
            s.total[0] += c; s.total[1] += m
            ln = min(50, len(w.decode()))
            if w in stopwords:
                cls._inc(s.stop, ln, c, m); s.stop_terms[w] = [c, m]
            else:
                cls._inc(s.non, ln, c, m); s.non_terms[w] = [c, m]
                cls._inc(s.distinct, min(c, 11), 1, int(c == m))
        for i in range(len(ws)):
            ok = True
            for j in range(8):
                if i + j >= len(ws): break
                ok = ok and (i + j) in recognised
                cls._inc(s.phrase, j + 1, 1, 0 if ok else 1)
        return s
    def add(s, o):
        s.total[0] += o.total[0]; s.total[1] += o.total[1]
        for d, e in ((s.stop, o.stop), (s.non, o.non), (s.distinct, o.distinct), (s.phrase, o.phrase),
                     (s.stop_terms, o.stop_terms), (s.non_terms, o.non_terms)):
            for k, (c, m) in e.items(): s._inc(d, k, c, m)
        return s
    def text(s):
        w = lambda c, m: (b"%8d %8d " % (c, m)) + pct(c - m, c).encode() + b"   "
        head = b"   Count   Missed   %Right   "
        o = [(WAC_TITLE + VERSION).encode(), b"-" * 40, b"%8d   Words" % s.total[0], b"%8d   Misrecognized" % s.total[1],
             pct(s.total[0] - s.total[1], s.total[0]).encode() + b"%  Accuracy"]
        def numbers(d, limit, title, excess, total):
            o.extend([b"", title, head + (b"Occurs" if excess else b"Length")])
            for i in range(1, limit + 1):
                if d.get(i, [0, 0])[0] > 0: o.append(w(*d[i]) + b"    %2d" % i)
            if excess and d.get(limit + 1, [0, 0])[0] > 0: o.append(w(*d[limit+1]) + b"   >%2d" % limit)
            if total: o.append(w(sum(v[0] for v in d.values()), sum(v[1] for v in d.values())) + b" Total")
        numbers(s.stop, 50, b"Stopwords", False, True)
        numbers(s.non, 50, b"Non-stopwords", False, True)
        numbers(s.distinct, 10, b"Distinct Non-stopwords", True, True)
        if s.total[0] > 0:
            numbers(s.phrase, 8, b"Phrases", False, False)
            for d, terms, title in ((s.stop, s.stop_terms, b"Stopwords"), (s.non, s.non_terms, b"Non-stopwords")):
                if sum(v[0] for v in d.values()) > 0:
                    o.extend([b"", title, head])
                    for t in sorted(terms): o.append(w(*terms[t]) + t)
        return b"\n".join(o) + b"\n"

def parse_wac(data):
    if not data.endswith(b"\n"): raise Bad("no final newline")
    L = data[:-1].split(b"\n")
    if len(L) < 5 or not L[0].startswith(WAC_TITLE.encode()) or L[1] != b"-" * 40: raise Bad("title")
    s = Wac()
    def val(l, lab):
        m = re.fullmatch(rb" *(\d+)   " + lab, l)
        if not m: raise Bad("expected %r: %r" % (lab, l))
        return int(m.group(1))
    s.total = [val(L[2], b"Words"), val(L[3], b"Misrecognized")]
    secs, i = [], 5
    while i < len(L):
        if L[i] != b"": raise Bad("expected a blank line: %r" % L[i])
        j = i + 3
        while j < len(L) and L[j] != b"": j += 1
        secs.append((L[i+1], L[i+3:j])); i = j
    def rows(ls):
        for l in ls:
            m = re.fullmatch(rb" *(\d+) +(\d+) +(\S+)   (.*)", l, re.S)
            if not m: raise Bad("row %r" % l)
            yield m.group(4), int(m.group(1)), int(m.group(2))
    want = [(b"Stopwords", s.stop), (b"Non-stopwords", s.non), (b"Distinct Non-stopwords", s.distinct)]
    if s.total[0] > 0: want.append((b"Phrases", s.phrase))
    if len(secs) < len(want): raise Bad("sections missing")
    for (title, d), (t, ls) in zip(want, secs):
        if t != title: raise Bad("section %r" % t)
        for k, c, m in rows(ls):
            if k == b" Total": continue
            k = 11 if k.strip().startswith(b">") else int(k)
            if k in d: raise Bad("twice: %r" % k)
            d[k] = [c, m]
    for t, ls in secs[len(want):]:
        d = {b"Stopwords": s.stop_terms, b"Non-stopwords": s.non_terms}.get(t)
        if d is None or d: raise Bad("section %r" % t)
        for k, c, m in rows(ls):
            if k in d: raise Bad("word listed twice: %r" % k)
            d[k] = [c, m]
    return s

class Edo:
    def __init__(s, ins=0, dele=0, moves=None):
        s.ins, s.dele, s.moves = ins, dele, dict(moves or {})
    def add(s, o):
        s.ins += o.ins; s.dele += o.dele
        for k, v in o.moves.items(): s.moves[k] = s.moves.get(k, 0) + v
        return s
    def n(s): return sum(s.moves.values())
    def text(s):
        o = [EDO_TITLE + VERSION, "-" * 41, "%8d   Insertions" % s.ins, "%8d   Deletions" % s.dele, "%8d   Moves" % s.n()]
        if s.n() > 0:
            o += ["", "Moves", "   Count   Length"] + ["%8d %8d" % (s.moves[k], k) for k in sorted(s.moves) if s.moves[k] > 0]
        return ("\n".join(o) + "\n").encode()
    def cost(s, T): return s.ins + sum(min(k, T) * v for k, v in s.moves.items())

def parse_edo(data):
    L = data.decode().split("\n")
    if not L[0].startswith(EDO_TITLE) or L[1] != "-" * 41 or L[-1] != "": raise Bad("edit operation report")
    v = []
    for l, lab in zip(L[2:5], ("Insertions", "Deletions", "Moves")):
        m = re.fullmatch(r" *(\d+)   " + lab, l)
        if not m: raise Bad("expected %s: %r" % (lab, l))
        v.append(int(m.group(1)))
    e = Edo(v[0], v[1])
    if v[2] > 0:
        if L[5:8] != ["", "Moves", "   Count   Length"]: raise Bad("moves")
        for l in L[8:-1]:
            m = re.fullmatch(r" *(\d+) +(\d+)", l)
            if not m or int(m.group(2)) in e.moves: raise Bad("move %r" % l)
            e.moves[int(m.group(2))] = int(m.group(1))
    elif len(L) != 6: raise Bad("trailing lines")
    if e.n() != v[2]: raise Bad("Moves %d, listed %d" % (v[2], e.n()))
    return e

# ---------------------------------------------------------------- statistics
def jackknife(obs):
    """(lower, upper) of the interval for [(count, missed)]."""
    acc = lambda c, m: 100.0 * (c - m) / c
    n = len(obs)
    C, M = sum(c for c, _ in obs), sum(m for _, m in obs)
    th = acc(C, M)
    ti = [acc(C - c, M - m) for c, m in obs]
    J = n * th - (n - 1) * sum(ti) / n
    ji = [n * th - (n - 1) * t for t in ti]
    s = math.sqrt(sum((x - J) ** 2 for x in ji) / (n - 1) / n)
    return max(0.0, min(100.0, J - 1.96 * s)), max(0.0, min(100.0, J + 1.96 * s))

def dist_text(obs):
    tot = sum(c for c, _ in obs)
    if tot == 0: return b""
    o = []
    for x in range(101):
        w = sum(c for c, m in obs if c > 0 and 100.0 * (c - m) / c >= x)
        o.append("%3d %6.2f\n" % (x, 100.0 * w / tot))
    return "".join(o).encode()

# ---------------------------------------------------------------- vote
def vote(regions, texts, wm=1, wn=1, thr=None):
    """regions of texts [(cp, suspect)], in voting order; thr None or (m, n).  -> [(cp, suspect)]"""
    limit = 0 if thr is None else len(texts) * wn * thr[0] // thr[1]
    out, pos = [], [0] * len(texts)
    for kind, val in regions:
        lens = [len(val)] * len(texts) if kind == "m" else [len(v) for v in val]
        seqs = [t[p:p+l] for t, p, l in zip(texts, pos, lens)]
        pos = [p + l for p, l in zip(pos, lens)]
        i = 0
        while True:
            cand = {}
            for s in seqs:
                if i < len(s):
                    c, q = s[i]
                    if c == WILD: continue
                    cand[c] = cand.get(c, 0) + (wm if q else wn)
                else: cand[None] = cand.get(None, 0) + wn
            i += 1
            if not cand: out.append((WILD, False)); continue
            best = max(cand.values())
            w = next(k for k, v in cand.items() if v == best)
            if w is None: break
            out.append((w, best <= limit))
    return out

def bigram_distances(texts):
    tab = {}
    n = len(texts)
    for i, t in enumerate(texts):
        for a, b in zip(t, t[1:]):
            e = tab.setdefault((a, b), [0] * n); e[i] += 1
    d = [0.0] * n
    for k, e in tab.items():
        if WILD in k: med = 0
        else:
            s = sorted(e)
            med = s[n // 2] if n & 1 else (s[n // 2 - 1] + s[n // 2]) / 2.0
        for i in range(n): d[i] += abs(e[i] - med)
    return d
