"""wordaccsum."""
from props.sums import *
RULE = ("a case is 2..500 word accuracy reports, generated by a reference writer (huge counts, words of up to 400 letters in many scripts) "
        "or made by wordacc; their sum is compared byte for byte with the reference sum, in another order and grouped; non-trivial if the "
        "sum lists words")
def genuine(c, g, i):
    voc = g.vocab(g.r.randint(1, 20))
    ws = g.words(g.r.randint(0, 40), voc)
    c.w("x", g.join(ws)); c.w("y", g.join(g.mutate_words(ws, voc)))
    c.w("st", b"the a of ab\n")
    return c.run("wordacc", *(["-S", "st"] if i == 1 else []), "x", "y").out
K = Kind("wordaccsum", lambda g, big: g.wac(big), model.parse_wac, genuine)
def manywords(c):
    g = gen.Gen(c.rng); r = c.rng
    rs = []
    for i in range(3):
        w = model.Wac()
        n, al, k = [(600, "abcdefgh", 5), (2000, "abcdefgh", 5), (2000, "abcdefgh", 5), (35000, "abcdefghijk", 9), (600, "ab", 14), (2000, "xyz", 12), (25000, "abcdefghijk", 9), (70000 if i == 0 else 3000, "abcdefghijk", 9)][c.index % 8]
        for j in range(n):
            t = "".join(r.choice(al) for _ in range(r.randint(1, k))).encode()
            if t in w.non_terms or t in w.stop_terms: continue
            stop = r.random() < 0.1
            w.total[0] += 1; ln = len(t)
            w._inc(w.stop if stop else w.non, ln, 1, 0); (w.stop_terms if stop else w.non_terms)[t] = [1, 0]
            if not stop: w._inc(w.distinct, 1, 1, 0)
        for k in range(1, 9): w._inc(w.phrase, k, w.total[0] - k + 1, 3)
        rs.append(w)
    x = judge(c, K, rs, [x.text() for x in rs], "order")
    c.note(x, True)
def longword(c):
    """Words of every length around the sizes of line buffers."""
    g = gen.Gen(c.rng); r = c.rng
    rs = []
    L = r.choice([48, 49, 50, 51, 62, 98, 99, 100, 126, 127, 128, 170, 198, 199, 200, 254, 255, 256, 500, 511, 512, 1000, 1023, 1024, 2047, 4096, 70000])
    for i in range(3):
        w = model.Wac()
        for d in (-2, -1, 0, 1, 2):
            t = (r.choice("ab") * (L + d)).encode() if r.random() < 0.8 else (r.choice("\u00e9\u4e00") * (L + d)).encode()
            if t in w.non_terms: continue
            n = r.randint(1, 30); m = r.randint(0, n)
            w.total[0] += n; w.total[1] += m
            w._inc(w.non, min(50, len(t.decode())), n, m); w.non_terms[t] = [n, m]; w._inc(w.distinct, min(n, 11), 1, int(n == m))
        for k in range(1, 9): w._inc(w.phrase, k, max(1, w.total[0] - k + 1), 1)
        rs.append(w)
    c.note(judge(c, K, rs, [x.text() for x in rs], "order"), True)
def siblings(c):
    """Words with a long beginning in common."""
    g = gen.Gen(c.rng); r = c.rng
    v = list({x.lower().encode() for x in g.siblings(60) + g.siblings(8)})
    rs = []
    for i in range(3):
        w = model.Wac()
        for t in v:
            if r.random() < 0.4: continue
            n = r.randint(1, 30); m = r.randint(0, n)
            w.total[0] += n; w.total[1] += m
            w._inc(w.non, min(50, len(t.decode())), n, m); w.non_terms[t] = [n, m]; w._inc(w.distinct, min(n, 11), 1, int(n == m))
        for k in range(1, 9): w._inc(w.phrase, k, max(1, w.total[0] - k + 1), 1)
        rs.append(w)
    c.note(judge(c, K, rs, [x.text() for x in rs], "order"), True)
FAMILIES = {"siblings": (siblings, 80, 800), "random": (random_case(K), 900, 9000), "genuine": (genuine_case(K), 250, 2500), "manywords": (manywords, 8, 60), "longword": (longword, 100, 600),
            "many": (many_case(K, [60, 500, 257, 1300]), 4, 12), "refuse": (refuse_case(K), 1, 1)}
BIG = ("manywords", "many")
MIN_NONTRIVIAL = 300
