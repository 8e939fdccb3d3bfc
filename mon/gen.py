"""Seeded generators of texts, words and reports."""
import model, u8

NL, WILD, MARK = 10, 126, 94
SYNC_UNSAFE = set(map(ord, "{}<>=\u25cc"))

LATIN = list(map(ord, "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789.,;:!?'\"-()/"))
ACCENT = list(range(0xC0, 0x180))
GREEK = list(range(0x391, 0x3A2)) + list(range(0x3A3, 0x3CA))
CYR = list(range(0x400, 0x480))
HEB = list(range(0x5D0, 0x5EB))
ARAB = list(range(0x620, 0x64B))
CJK = list(range(0x4E00, 0x4E80)) + [0x20000, 0x2A6D6, 0x3400]
KANA = list(range(0x3041, 0x3097)) + list(range(0x30A1, 0x30FB))
HANGUL = list(range(0xAC00, 0xAC40))
MARKS = [0x300, 0x301, 0x308, 0x327, 0x345, 0x483, 0x5B0, 0x64B, 0x93E, 0x941, 0x20D0, 0xFE00, 0x1D165, 0xE0100]
SYMB = list(map(ord, "+*/%$#@&|\\_`[]")) + [0x20AC, 0x2192, 0x2200, 0x25A0, 0x2026, 0x2014, 0x2018, 0x2019, 0x201C, 0x201D, 0xB5, 0xA7]
ASTRAL = [0x10000, 0x10400, 0x10428, 0x1D400, 0x1F600, 0x1F1E6, 0x1F1E7, 0x1F468]
CTRL = [0x00, 0x01, 0x07, 0x08, 0x1B, 0x7F, 0x80, 0x9F, 0xAD, 0x200B, 0x200D, 0x200E, 0xFEFF, 0xE000, 0xF8FF, 0x378, 0xFFFE, 0xFFFF, 0x1FFFE, 0xF0000, 0x10FFFD, 0x10FFFF, 0xE0001]
BLANKS = [9, 11, 12, 13, 32, 0xA0, 0x1680, 0x2000, 0x2003, 0x2007, 0x2009, 0x200A, 0x2028, 0x2029, 0x202F, 0x205F, 0x3000]

def gen_letters(r): return r.choice(["abcdefgh", "abcXYZ", "\u00e9\u00e8abc", "\u03b1\u03b2\u03b3\u03b4", "\u0430\u0431\u0432\u0433"])
def valid(cp): return 0 <= cp <= 0x10FFFF and not 0xD800 <= cp <= 0xDFFF

class Gen:
    def __init__(s, rng): s.r = rng
    # ---- sizes
    def size(s, big=0.0, maxbig=4000):
        r = s.r.random()
        if r < big: return s.r.randint(300, maxbig)
        if r < 0.08: return s.r.choice([0, 0, 1, 1, 2])
        if r < 0.55: return s.r.randint(3, 14)
        if r < 0.9: return s.r.randint(10, 80)
        return s.r.randint(60, 300)
    # ---- alphabets (code points; may hold blanks, newline, reject)
    def alphabet(s, sync_safe=False, wild=0.3, any_cp=0.15):
        r = s.r
        k = r.random()
        if k < 0.35: a = list(map(ord, r.choice(["ab", "abc", "a", "abcd", "xyzw", "ab \n"])))
        elif k < 0.55: a = r.sample(LATIN, r.randint(3, 30))
        elif k < 0.65: a = LATIN + [32] * 8
        else:
            a = []
            for _ in range(r.randint(1, 4)):
                pool = r.choice([LATIN, ACCENT, GREEK, CYR, HEB, ARAB, CJK, KANA, HANGUL, MARKS, SYMB, ASTRAL, CTRL])
                a += r.sample(pool, min(len(pool), r.randint(1, 8)))
        if r.random() < any_cp:
            for _ in range(r.randint(1, 6)):
                c = r.choice([r.randint(0, 0x2FF), r.randint(0, 0xFFFF), r.randint(0, 0x10FFFF)])
                if valid(c): a.append(c)
        if r.random() < 0.5: a.append(32)
        if r.random() < 0.45: a.append(NL)
        if r.random() < wild: a += [WILD] * r.choice([1, 1, 2])
        a = [c for c in a if c != MARK and (not sync_safe or c not in SYNC_UNSAFE)]
        return a or [97]
    # ---- code point sequences
    def seq(s, n, alpha):
        r = s.r
        k = r.random()
        if k < 0.7 or n < 6: return [r.choice(alpha) for _ in range(n)]
        if k < 0.85:                      # repeated motifs
            motifs = [[r.choice(alpha) for _ in range(r.randint(1, 6))] for _ in range(r.randint(1, 3))]
            out = []
            while len(out) < n: out += r.choice(motifs)
            return out[:n]
        out = []                          # runs
        while len(out) < n: out += [r.choice(alpha)] * r.randint(1, 7)
        return out[:n]
    def mutate(s, t, alpha, rate=None, moves=None):
        """Edit operations, and block moves, copies and reversals."""
        r = s.r
        t = list(t)
        if rate is None: rate = r.choice([0, 0.02, 0.1, 0.3, 0.6])
        out = []
        for c in t:
            if r.random() < rate:
                k = r.random()
                if k < 0.35: continue
                if k < 0.65: out.append(r.choice(alpha)); continue
                if k < 0.95: out.append(c); out.append(r.choice(alpha)); continue
                out += [r.choice(alpha) for _ in range(r.randint(1, 5))]
            else: out.append(c)
        if not t and r.random() < 0.5: out = [r.choice(alpha) for _ in range(r.randint(0, 5))]
        n = moves if moves is not None else r.choice([0, 0, 0, 1, 1, 2, 4])
        for _ in range(n):
            if len(out) < 3: break
            a, b = sorted(r.sample(range(len(out) + 1), 2))
            blk = out[a:b]
            k = r.random()
            if k < 0.6:
                rest = out[:a] + out[b:]; p = r.randint(0, len(rest))
                out = rest[:p] + blk + rest[p:]
            elif k < 0.75: out = out[:a] + out[b:]
            elif k < 0.85 and len(out) < 2000: p = r.randint(0, len(out)); out = out[:p] + blk + out[p:]
            else: p = r.randint(0, len(out)); out = out[:p] + [r.choice(alpha) for _ in range(r.randint(1, 12))] + out[p:]
        return out
    def pair(s, sync_safe=False, big=0.0, **kw):
        a = s.alphabet(sync_safe, **kw)
        t = s.seq(s.size(big), a)
        if s.r.random() < 0.08: g = s.seq(s.size(big), a)
        else: g = s.mutate(t, a)
        return t, g, a
    def repeats(s, k, alpha):
        """k texts of the same few motifs, each repeated many times, so that long common runs overlap each other."""
        r = s.r
        motifs = [[r.choice(alpha) for _ in range(r.choice([1, 2, 2, 3, 5, 9, 17]))] for _ in range(r.choice([1, 1, 2, 3]))]
        most = r.choice([20, 60, 150, 400]) // k + 8
        res = []
        for _ in range(k):
            out = []
            for _ in range(r.choice([1, 2, 3, 5])):
                m = r.choice(motifs); q = r.randint(0, len(m))
                out += (m * (most // len(m) + 1))[q:q + r.randint(1, most)]
                if r.random() < 0.7: out += [r.choice(alpha) for _ in range(r.choice([1, 1, 3, 8]))]
            res.append(out)
        if r.random() < 0.4:
            tail = [r.choice(alpha) for _ in range(r.randint(1, 12))]
            for t in res: t += tail
        return res
    # ---- files
    def marked(s, cps, p=None):
        """Text with suspect markers; bytes."""
        r = s.r
        if p is None: p = r.choice([0, 0, 0.05, 0.3, 1.0])
        out = []
        for c in cps:
            if p and r.random() < p: out.append("^" * r.choice([1, 1, 1, 2, 3]))
            out.append(chr(c))
        if p and r.random() < 0.3: out.append("^")
        return "".join(out).encode()
    def plain(s, cps): return "".join(map(chr, cps)).encode()
    def header(s, version=None):
        r = s.r
        b = model.TITLE + (version or b"5.0") + b"\n"
        for _ in range(r.randint(0, 4)): b += r.choice([b"Version 1.0\n", b"\n", b"-" * 47 + b"\n", b"-" * 49 + b"\n", b"Some ^OCR~ product\n", "caf\u00e9\n".encode(), b"x" * r.choice([90, 198, 199, 200, 201, 400]) + b"\n"])
        if r.random() < 0.15:       # a long line that ends like a divider, at some size of a buffer
            k = r.choice([64, 80, 100, 128, 200, 256, 512, 1000, 1024, 4096, 8192]); b += b"x" * (k - r.choice([0, 1, 1, 2])) + model.DIVIDER
        b += model.DIVIDER
        for _ in range(r.randint(0, 4)): b += r.choice([b"page 1\n", b" " + model.DIVIDER, b"\n", b"a b c\n"])
        return b + model.DIVIDER
    def noise(s, data):
        """Same text with other spacing; a run of blanks is marked in the result if any of it was."""
        r = s.r
        out = []
        blank = lambda n: "".join(chr(r.choice(BLANKS)) for _ in range(n))
        lines = data.decode().split("\n")
        for i, l in enumerate(lines):
            last = i == len(lines) - 1
            if r.random() < 0.2: out.append(blank(r.randint(0, 3)) + "\n" * r.randint(1, 3))
            body = []
            j = 0
            while j < len(l):
                m = len(l[j:]) - len(l[j:].lstrip("^"))
                if m and j + m < len(l) and u8.is_blank(ord(l[j + m])):
                    run = blank(r.randint(1, 4)); at = {r.randrange(len(run))}
                    if r.random() < 0.3: at.add(r.randrange(len(run)))
                    body.append("".join("^" * (k in at) + x for k, x in enumerate(run))); j += m
                elif u8.is_blank(ord(l[j])): body.append(blank(r.randint(1, 4)) if r.random() < 0.6 else l[j])
                else: body.append(l[j])
                j += 1
            b = "".join(body)
            end = b[len(b.rstrip("^")):]; b = b[:len(b) - len(end)]      # what marks the end of the line stays there
            if r.random() < 0.4: b = blank(r.randint(1, 3)) + b
            if r.random() < 0.4: b = b + blank(r.randint(1, 3))
            out.append(b + end + ("" if last else "\n"))
        t = "".join(out)
        return t.encode()
    def clean(s, cps):
        """Code points after normalisation."""
        return model.cps(model.normalise([(c, False) for c in cps]))
    # ---- words
    def word(s, kind=None):
        r = s.r
        k = r.random() if kind is None else kind
        if k < 0.25: return r.choice(["the", "a", "of", "and", "The", "TO", "in", "is", "it", "that", "was", "for"])
        if k < 0.45: return "".join(r.choice("abAB") for _ in range(r.randint(1, 3)))
        if k < 0.7: return "".join(chr(r.choice(LATIN[:52])) for _ in range(r.randint(1, 12)))
        if k < 0.8: return r.choice(["3.14", "1,000", "don't", "can't", "e.g", "x_y", "_", "a1", "42", "A.B.C", "x:y", "l'or"])
        if k < 0.95:
            pool = r.choice([ACCENT, GREEK, CYR, HEB, ARAB, KANA, HANGUL])
            w = "".join(chr(r.choice(pool)) for _ in range(r.randint(1, 8)))
            if r.random() < 0.4: w += chr(r.choice(MARKS))
            return w
        return "".join(chr(r.choice(LATIN[:52])) for _ in range(r.choice([30, 49, 50, 51, 52, 60, 63, 64, 65, 100, 127, 128, 129, 150, 255, 256, 260, 400])))
    def vocab(s, n, longest=None):
        """longest: where the tools compare characters, so that the texts remain of a few thousand."""
        v = [s.word() for _ in range(n)]
        if s.r.random() < 0.12: v += s.siblings(s.r.randint(2, 12))
        if longest: v = [w[:longest] for w in v]
        s.r.shuffle(v)
        return list(dict.fromkeys(v))
    def siblings(s, n, lengths=(20, 31, 40, 62, 100, 127, 128, 200, 255, 256, 300, 511, 600, 1100)):
        """Words that share a long beginning (or all but it)."""
        r = s.r
        a = gen_letters(r)
        stem = "".join(r.choice(a) for _ in range(r.choice(lengths)))
        out = []
        for _ in range(n):
            e = "".join(r.choice(a[:3]) for _ in range(r.choice([0, 1, 2, 2, 3, 6])))
            out.append(stem + e if r.random() < 0.85 else e + stem)
        if r.random() < 0.5 and len(stem) > 3:           # same letters in another order at the end
            out += [stem + "ab", stem + "ba", stem[:-2] + stem[-1] + stem[-2]]
        return out
    def words(s, n, voc):
        r = s.r
        if r.random() < 0.5: return [r.choice(voc) for _ in range(n)]
        w = [1.0 / (i + 1) for i in range(len(voc))]
        return r.choices(voc, w, k=n)
    def join(s, ws):
        """Words as text: separators that part words."""
        r = s.r
        out = []
        for i, w in enumerate(ws):
            out.append(w)
            out.append(r.choice([" "] * 8 + ["\n", "\n", ", ", ". ", "; ", " - ", "! ", " (", ") ", "\n\n"]))
        return "".join(out)
    def mutate_words(s, ws, voc, rate=None):
        return s.mutate(ws, voc, rate)
    # ---- reports
    def num(s, hi=None):
        r = s.r
        k = r.random()
        if k < 0.5: v = r.randint(0, 20)
        elif k < 0.8: v = r.randint(0, 2000)
        elif k < 0.9: v = r.choice([99999999, 100000000, 9999999, 2**31 - 1, 2**31, 2**32, 32767, 32768, 65535, 65536, 4294967297, 99999999999, 2**33, 3 * 2**32, 2**31 + 1, 2**32 - 1])
        else: v = r.randint(0, 10**10)
        return v if hi is None else min(v, hi)
    def acc(s, big=True):
        """A consistent accuracy report with arbitrary contents."""
        r = s.r
        a = model.Acc()
        if r.random() < 0.06: return a
        num = s.num if big else (lambda hi=None: min(r.randint(0, 50), hi if hi is not None else 50))
        pool = LATIN + [10, 32, 60, 62, 123, 125, 126, 92, 0x25CC, 0x301, 0, 0x7F, 0xAD, 0x10FFFF, 0xE9, 0x4E00, 0x1F600, 0xFFFF, 0x1D165, 0x2028]
        for _ in range(r.choice([0, 1, 2, 5, 20, 60])):
            c = r.choice(pool) if r.random() < 0.8 else r.randint(0, 0x10FFFF)
            if c == WILD or not valid(c): continue
            n = max(1, num()); m = r.choice([0, n, r.randint(0, n)])
            a.add_char(c, n, m)
        a.characters = sum(v[0] for v in a.chars.values())
        parts = []
        for _ in range(r.choice([0, 1, 3, 10, 40])):
            key = s.conf_key()
            e = max(1, num()); m = r.choice([0, e, r.randint(0, e)])
            a.add_conf(key, e, m)
            parts.append((e, m))
        for e, m in parts:
            for t, v in ((a.marked, m), (a.unmarked, e - m)):
                i = r.randint(0, v); j = r.randint(0, v - i)
                t[0] += i; t[1] += j; t[2] += v - i - j; t[3] += v
        for i in range(4): a.total[i] = a.marked[i] + a.unmarked[i]
        a.errors = a.total[3]
        a.rejects, a.suspects = num(), num(); a.false = num(a.suspects)
        return a
    def conf_key(s):
        r = s.r
        def side():
            n = r.choice([0, 0, 1, 1, 2, 3, 8, 24, 30])
            al = r.choice([list(map(ord, "abc")), list(map(ord, "ab {}<>-^~")), LATIN, [0x301, 0xE9, 10, 32, 0, 0x10FFFF, 0x4E00, 0x1F600]])
            return model.conf_side([(r.choice(al), False) for _ in range(n)])
        return "{%s}-{%s}" % (side(), side())
    def wac(s, big=True):
        """A consistent word accuracy report (counts of phrases free)."""
        r = s.r
        w = model.Wac()
        if r.random() < 0.06: return w
        num = s.num if big else (lambda hi=None: min(r.randint(0, 50), hi if hi is not None else 50))
        for x in {u8.nfc_bytes(s.word().lower().encode()) for _ in range(r.choice([0, 1, 3, 10, 50]))}:
            if b"\0" in x: continue
            n = max(1, num()); m = r.choice([0, n, r.randint(0, n)])
            stop = x in model.DEFAULT_STOPWORDS
            ln = min(50, len(x.decode()))
            w.total[0] += n; w.total[1] += m
            w._inc(w.stop if stop else w.non, ln, n, m)
            (w.stop_terms if stop else w.non_terms)[x] = [n, m]
            if not stop: w._inc(w.distinct, min(n, 11), 1, int(n == m))
        if w.total[0]:
            for k in range(1, 9):
                c = max(1, w.total[0] - k + 1); w._inc(w.phrase, k, c, r.randint(0, c))
        return w
    def edo(s, big=True):
        r = s.r
        num = s.num if big else (lambda: r.randint(0, 50))
        e = model.Edo(num(), num())
        for _ in range(r.choice([0, 0, 1, 3, 10, 60])):
            e.moves[r.choice([1, 2, 99, 100, r.randint(1, 100)])] = max(1, num())
        return e
