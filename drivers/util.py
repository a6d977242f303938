"""C31 information measures, C32 Markov source, C33 quality figures, C34 Bernoulli mixture, C36 Hamming distance, C39 relabelling"""
import collections
import itertools
import bitstring
import numpy as np
import vt
from vt import I, ints, fx, fxs, rng

DTYPES = [np.int64, np.uint8, np.int16, "str"]


def pmf(w, n, r):
    """counts over len(w) symbols with sum <= 20, not all zero"""
    w = [min(x, 6) for x in w[:3]]
    if not any(w):
        w[r.randrange(len(w))] = n + 1
    return w


def c31(rec):
    from utils.information_theory import prob, prob_with_alphabet, entropy, hellinger, typical_set_cardinality
    r = rng("c31")

    def dtyped(rows, d):
        if d == "str":
            return np.array([[chr(97 + x) for x in row] for row in rows])
        return np.array(rows, dtype=d)

    def sym(x):
        return ord(x) - 97 if isinstance(x, str) else I(x)
    for g in rec.gen():
        c, w = g["cfg"], g["w"]
        # empirical distributions
        nr = 1 + c["a"] % 3
        cols = [24 // nr, 8, 5, 3][c["b"]]
        top = [8, 3, 2, 5][c["c"]]
        rows = [[x % top for x in w[i * cols:(i + 1) * cols]] for i in range(nr)]
        d = DTYPES[c["d"]]
        arr = dtyped(rows, d)
        given = []
        if c["e"] >= 2:
            given = list(range(top if c["e"] == 2 else max(1, top - 1)))
            r.shuffle(given)
        ga = [chr(97 + x) for x in given] if d == "str" else given
        kw = dict(alphabet=ga) if given else {}
        rec.observe("Prob", lambda: prob_with_alphabet(arr, **kw), lambda v: dict(pr=[fxs(x, 100000) for x in v[0]], alpha=[sym(x) for x in v[1]]),
                    dict(pr=[], alpha=[]), rows=rows, given=given)
        if c["a"] % 2:
            rec.observe("Prob", lambda: prob(arr, **kw), lambda v: dict(pr=[fxs(x, 100000) for x in v], alpha=given or sorted({x for q in rows for x in q})), dict(pr=[], alpha=[]), rows=rows, given=given)
        else:
            one = arr[0]
            rec.observe("Prob", lambda: prob_with_alphabet(one), lambda v: dict(pr=[fxs(v[0], 100000)], alpha=[sym(x) for x in v[1]]), dict(pr=[], alpha=[]), rows=rows[:1], given=[])
        # entropy and Hellinger distance of rational distributions
        pk = [pmf(w[3 * i:], c["b"], r) for i in range(1 + c["d"])]
        qk = [pmf(w[3 * i + 12:], c["c"], r) if r.random() < .8 else [2 * x for x in pk[i]] if sum(pk[i]) <= 10 else pk[i] for i in range(len(pk))]
        pa, qa = (np.array([[x / sum(p) for x in p] for p in k]) for k in (pk, qk))
        lb = 1 + c["e"]
        one = len(pk) == 1 and c["a"] < 3
        rec.observe("Entropy", lambda: entropy(pa[0] if one else pa, **({} if lb == 1 else dict(base=2 ** lb))), lambda v: dict(ent=[fx(v, 1000000)] if one else fxs(v, 1000000)), dict(ent=[]), pk=pk, lb=lb)
        rec.observe("Hellinger", lambda: (hellinger(pa[0], qa[0]), hellinger(qa[0], pa[0])) if one else (hellinger(pa, qa), hellinger(qa, pa)),
                    lambda v: dict(h=[fx(v[0], 10000)] if one else fxs(v[0], 10000), back=[fx(v[1], 10000)] if one else fxs(v[1], 10000)), dict(h=[], back=[]), pk=pk, qk=qk)
        rec.observe("TypicalDefault", lambda: typical_set_cardinality(100000 * (1 + w[0] % 5), ent=0.), lambda v: dict(lb=fx(v[0], 2 ** 20), ub=I(round(float(v[1]), 6))), dict(lb=0, ub=0), k=1 + w[0] % 5)
        # typical sets
        DY = {6: [.5, .25, .25], 4: [.5, .5], 0: [1.0], 7: [.5, .25, .125, .125], 8: [.25] * 4}
        t = r.choice(list(DY))
        j = r.choice([1, 2, 3, 4])
        n = r.choice([x for x in range(1, 13) if x * (t + j) % 4 == 0 and x * (t - j) % 4 == 0 and x * (t + j) // 4 <= 20 and x * (t - j) // 4 >= -8])
        mode = c["b"]
        kw = dict(ent=t / 4) if mode == 0 else dict(pk=np.array(DY[t])) if mode == 1 else dict(ent=t / 4, pk=np.array([.5, .25, .25])) if mode == 2 else dict(ent=float(t / 4), pk=np.array([1.0]))
        rec.observe("Typical", lambda: typical_set_cardinality(n, eps=j / 4, **kw), lambda v: dict(lb=fx(v[0], 1024), ub=I(round(float(v[1]), 6))), dict(lb=0, ub=0), n=n, t=t, j=j)
        rec.new_trace()
    u = np.array([.5, .5])
    for what, want, f in [
        ("float samples", "UnsupportedDtype", lambda: prob(np.array([[.5, 1.], [1., 2.]]))),
        ("float samples", "UnsupportedDtype", lambda: prob_with_alphabet(np.array([.5, 1.]))),
        ("3-d samples", "ValueError", lambda: prob(np.zeros((2, 2, 2), dtype=int))),
        ("3-d pmf", "ValueError", lambda: entropy(np.full((2, 2, 2), .5))),
        ("0-d pmf", "ValueError", lambda: entropy(np.array(1.))),
        ("mixed dimensions", "ValueError", lambda: hellinger(u, np.array([u, u]))),
        ("mixed dimensions", "ValueError", lambda: hellinger(np.array([u, u]), u)),
        ("3-d pmf", "ValueError", lambda: hellinger(np.full((2, 2, 2), .5), np.full((2, 2, 2), .5))),
        ("n = 0", "ValueError", lambda: typical_set_cardinality(0, ent=1.)),
        ("n < 0", "ValueError", lambda: typical_set_cardinality(-3, pk=u)),
        ("eps = 0", "ValueError", lambda: typical_set_cardinality(4, ent=1., eps=0)),
        ("eps < 0", "ValueError", lambda: typical_set_cardinality(4, ent=1., eps=-.1)),
        ("no distribution", "ValueError", lambda: typical_set_cardinality(4))]:
        rec.observe("Refused", f, lambda v: {}, {}, what=what, want=want)


def c32(rec):
    from utils.random_sources import generate_markov_samples
    r = rng("c32")
    np.random.seed(vt.SEED * 7919 + 11)
    for k, g in enumerate(rec.gen()):
        c, w = g["cfg"], g["w"]
        S, o = [(2, 1), (2, 2), (3, 1), (3, 2), (2, 3), (4, 1)][(c["a"] + 2 * c["b"]) % 6]
        P = []
        for q in range(S ** o):
            if c["c"] == 0:                               # deterministic
                row = [0] * S
                row[w[q % len(w)] % S] = 8
            else:
                row = [0] * S
                for _ in range(8):
                    row[r.choice([0, r.randrange(S)]) if c["c"] == 1 else r.randrange(S)] += 1
                if c["c"] == 2:                           # at least one impossible transition
                    z = r.randrange(S)
                    row[(z + 1) % S] += row[z]
                    row[z] = 0
            P.append(row)
        T = np.array(P).reshape((S,) * (o + 1)) / 8
        init = [x % S for x in w[:o]]
        n = [o, o + 1, 60, 1500][c["d"]]
        arg = init[0] if o == 1 and c["e"] % 2 else [init, tuple(init), np.array(init), list(init)][c["e"]]
        rec.observe("Chain", lambda: generate_markov_samples(T, arg, n), lambda v: dict(xs=ints(v)), dict(xs=[]), S=S, o=o, P=P, init=init, n=n)
        rec.new_trace()
    for S, o in [(2, 1), (2, 2), (3, 2), (2, 3)]:
        T = np.full((S,) * (o + 1), 1 / S)
        for bad in (o - 1, o + 1):
            rec.observe("Refused", lambda: generate_markov_samples(T, [0] * bad, 9), lambda v: {}, {}, what=f"order {o}, {bad} initial states", want="ValueError")
        T2 = np.full((S,) * o + (S + 1,), 1 / (S + 1))
        rec.observe("Refused", lambda: generate_markov_samples(T2, [0] * o, 9), lambda v: {}, {}, what="rows and states differ", want="ValueError")


def ratio(x):
    return -1000 if not np.isfinite(x) else fx(x, 100000)


def c33(rec):
    from utils.performance_analysis import stats, ber
    r = rng("c33")

    def enc(v):
        cm, re, pr, f1, acc = v
        return dict(rcm=[ints(x) for x in cm], rec=[ratio(x) for x in re], pre=[ratio(x) for x in pr], f1=[ratio(x) for x in f1], acc=ratio(acc))
    dflt = dict(rcm=[], rec=[], pre=[], f1=[], acc=0)
    for g in rec.gen():
        c, w = g["cfg"], g["w"]
        K, n = 2 + c["a"] % 3, [6, 12, 3, 12][c["b"]]
        a = [x % K for x in w[:n]]
        p = [x % K if c["c"] else (x % K if x < 5 else y) for x, y in zip(w[n:2 * n], a)]
        if c["e"] == 0:
            p = [min(a)] * n
        elif c["e"] == 1:
            p = [x if x in set(a) else a[0] for x in p]
        lab = (lambda s: np.array(s)) if c["d"] % 2 else (lambda s: list(s))
        rec.observe("Stats", lambda: stats(lab(a), lab(p)), enc, dflt, **{"from": "labels"}, a=a, p=p, cm=[])
        cm = [[w[(K * i + j + n) % 24] for j in range(K)] for i in range(K)]
        z = r.randrange(K)
        kind = r.randrange(5)
        if kind == 1:                                      # never predicted
            for i in range(K):
                cm[i][z] = 0
        elif kind == 2:                                    # never right
            cm[z][z] = 0
        elif kind == 3:                                    # absent class
            cm[z] = [0] * K
            for i in range(K):
                cm[i][z] = 0
        elif kind == 4:                                    # absent but predicted
            cm[z] = [0] * K
        if not any(map(any, cm)):
            cm[0][0] = 3
        rec.observe("Stats", lambda: stats(cm=np.array(cm)), enc, dflt, **{"from": "cm"}, a=[], p=[], cm=cm)
        bits, other = [x % 2 for x in w], [x // 4 for x in w[::-1]]
        m = 1 + r.randrange(24)
        dt = [np.int64, np.uint8, np.bool_, float][c["d"]]
        rec.observe("Ber", lambda: ber(np.array(bits[:m], dtype=dt), np.array(other[:m], dtype=dt)), lambda v: dict(b=fx(v, 100000)), dict(b=0), a=bits[:m], p=other[:m])
        rec.new_trace()


def c39(rec):
    import importlib.util, os
    sp = importlib.util.spec_from_file_location("relabel_functions", os.path.join(os.environ["VERIF_REPO"], "runs", "clsutering_analysis", "functions.py"))
    mod = importlib.util.module_from_spec(sp)
    sp.loader.exec_module(mod)
    r = rng("c39")

    def one(a, p, K, real, dt):
        arr = np.array(p, dtype=dt)
        f = (lambda: mod.relabel(arr, K, np.array(a))) if real else (lambda: mod.relabel(arr, K))
        rec.observe("Relabel", f, lambda v: dict(m=[I(v[1][c]) for c in range(K)] if len(v[1]) == K else [], out=ints(v[0])), dict(m=[], out=[]), a=a, p=p, K=K)
    for g in rec.gen():
        c, w = g["cfg"], g["w"]
        K = 1 + c["a"] if c["a"] < 4 else 3
        dt = [np.int64, np.int32, np.uint8, np.int16][c["b"]]
        n = [24, 12, 6, 20][c["c"]]
        perm = r.sample(range(K), K)
        a = [x % K for x in w[:n]]
        real = c["d"] > 0
        if not real:
            a = [i % K for i in range(n - r.randrange(K))]          # any number of predictions, also a partial turn
        noise = [0, .2, .5, 1][c["e"]]
        p = [perm[x] if r.random() >= noise else r.randrange(K) for x in a]
        if r.random() < .4 and K > 1:                       # a class split over clusters, a cluster swallowing classes
            k1, k2 = r.sample(range(K), 2)
            p = [r.choice([k1, k2]) if x == perm[0] or r.random() < .2 else y for x, y in zip(a, p)]
        one(a, p, K, real, dt)
        rec.new_trace()
    for K in (2, 3):                                        # every short labelling
        for p in itertools.product(range(K), repeat=2 * K):
            one([i % K for i in range(2 * K)], list(p), K, r.random() < .5, np.int64)


def c34(rec):
    from inference.bmm import BMM
    r = rng("c34")
    for g in rec.gen():
        c, w = g["cfg"], g["w"]
        K, D = 1 + c["a"] % 3, 2 + c["b"] % 3
        mu = [[min(7, max(1, x)) for x in w[i * D:(i + 1) * D]] for i in range(K)]
        cut = sorted(r.sample(range(1, 8), K - 1))
        pi = [y - x for x, y in zip([0] + cut, cut + [8])]
        xs = [list(t) for t in itertools.product([0, 1], repeat=D)]
        r.shuffle(xs)
        never = []
        if r.random() < .5:
            # components which exclude some values altogether, and words which some component allows
            mu = [[r.choice([0, 8, x, x]) for x in row] for row in mu]
            may = [x for x in xs if any(all(row[d] != 8 * (1 - x[d]) for d in range(D)) for row in mu)]
            never, xs = [x for x in xs if x not in may][:8], may
        xs = xs[:r.choice([1, 4, 16])]

        def given():
            b = BMM(K, 5)
            b.mu, b.pi = np.array(mu) / 8, np.array(pi) / 8
            X = np.array(xs)
            return b.predict(X), b.score_samples(X), b.score(X)
        rec.observe("Mix", given, lambda v: dict(lab=ints(v[0]), ll=fxs(v[1], 1000), score=fx(v[2], 1000)), dict(lab=[], ll=[], score=0), pi=pi, mu=mu, xs=xs)
        if never:
            def excluded():
                b = BMM(K, 5)
                b.mu, b.pi = np.array(mu) / 8, np.array(pi) / 8
                return b.score_samples(np.array(never)), b.score(np.array(never))
            rec.observe("MixNever", excluded, lambda v: dict(ll=fxs(v[0], 1000), score=fx(v[1], 1000)), dict(ll=[], score=0), pi=pi, mu=mu, xs=never)
        n = [4, 6, 9, 12][c["c"]]
        rare = r.random() < .25
        proto = [[r.randrange(2) for _ in range(D + 2)] for _ in range(K + 1)]
        data = [[b ^ (r.random() < .2) for b in r.choice(proto)] for _ in range(n)]
        if rare:        # a kind of its own that hardly occurs
            data = [[b ^ (r.random() < .05) for b in proto[0]] for _ in range(30)] + [[1 - b for b in proto[0]]]

        def fit():
            b = BMM(K, 40 if rare else 1 + c["d"] * 2)
            X = np.array(data, dtype=int)
            b.fit(X)
            return b, b.predict(X), b.score(X)

        def enc(v):
            b, lab, sc = v
            return dict(f=dict(mu=[fxs(x, 10000) for x in b.mu], pi=fxs(b.pi, 10000), g=[fxs(x, 10000) for x in b.gamma]), old=fx(b.old_logL, 100000), new=fx(b.logL, 100000), score=fx(sc, 100000), lab=ints(lab))
        rec.observe("Fit", fit, enc, dict(f=dict(mu=[], pi=[], g=[]), old=0, new=0, score=0, lab=[]), xs=[[int(b) for b in x] for x in data])
        rec.new_trace()


def c36(rec):
    from utils.bit_operations import hamming_distance
    r = rng("c36")

    def val(o, n):
        if o["k"] == "bytes":
            return bytes(o["v"])
        if o["k"] == "int":
            return o["v"][0]
        if o["k"] == "array":
            return np.array(o["v"], dtype=r.choice([np.int64, np.uint8, np.bool_]))
        if o["k"] == "bits":
            b = bitstring.Bits(o["v"])
            return r.choice([b, bitstring.BitArray(b), (bitstring.Bits("0b101") + b)[3:]])
        return r.choice([None, "0b1010", [1, 0], bytearray(b"ab"), 1.5, {"a": 1}, (1, 0)])

    def ham(a, b, n):
        x, y = val(a, n), val(b, n)
        kw = {} if n == 8 else dict(uint_len=n)
        rec.observe("Ham", lambda: hamming_distance(x, y, **kw), lambda v: dict(d=I(v)), dict(d=0), a=a, b=b, n=n)

    def operand(w, kind, n):
        if kind == "bytes":
            return dict(k=kind, v=[8 * a + b for a, b in zip(w[:n // 8], w[3:])])
        if kind == "int":
            return dict(k=kind, v=[int("".join(str(x % 2) for x in w[:n]) or "0", 2)])
        return dict(k=kind, v=[x % 2 for x in w[:n]])
    kinds = ["bytes", "int", "array", "bits"]
    for g in rec.gen():
        c, w = g["cfg"], g["w"]
        n = [8, 16, 24, 8][c["c"]]
        a, b = operand(w, kinds[c["a"]], n), operand(w[::-1], kinds[c["b"]], n)
        ham(a, b, n)
        ham(b, a, n)
        ham(a, a, n)
        if c["d"] == 0:                                    # any length
            m = r.randrange(1, 24)
            ham(operand(w, "array", m), operand(w[::-1], "bits", m), 8)
            ham(operand(w, "bits", m), operand(w[::-1], "array", m), 8)
            ham(operand(w, "array", m), operand(w[::-1], "array", m), 8)
            ham(operand(w, "int", m), operand(w[::-1], "int", m), m)
        elif c["d"] == 1:
            ham(a, operand(w, kinds[c["e"]], 32 - n), n)
        elif c["d"] == 2:
            ham(a, dict(k="int", v=[r.choice([-1, 2 ** n, 2 ** n + 5, 2 ** n - 1])]), n)
            ham(dict(k="int", v=[r.choice([-1, 2 ** n, 2 ** n - 1])]), a, n)
        else:
            ham(a, dict(k="other", v=[]), n)
            ham(dict(k="other", v=[]), a, n)
        rec.new_trace()
    for x in range(16):
        for y in range(16):
            ham(dict(k="int", v=[x]), dict(k="int", v=[y]), 4)


def c41(rec):
    """the repository's random test data, under many seeds of Python's generator"""
    import random
    from data_generation.random_test_data_generation import rand_uint8, rand_msg, rand_bitstring
    r = rng("c41")
    for k, g in enumerate(rec.gen()):
        w = g["w"]
        seed = r.randrange(2 ** 32)
        if k % 4 == 0:
            random.seed(seed)
            n = 256 * 1200 if k == 0 else 10240 if vt.THOROUGH else 7680
            for what, f in (("uint8", rand_uint8), ("msg", rand_msg)):
                def draw():
                    c = collections.Counter(I(f()) for _ in range(n))
                    return sorted(c.items())
                rec.observe("Draws", draw, lambda v: dict(ids=[a for a, _ in v], cnt=[b for _, b in v]), dict(ids=[], cnt=[]), what=what)
        n = [0, 1, 2, 3, 7, 8, 9, 16, 31, 64, 65, 33, 128, 200, 1000][(w[0] * 8 + w[1]) % 15]
        draws = 200
        if k in (1, 2, 3, 5):                            # many words of one length, every pair of their bits
            n, draws = {1: 8, 2: 40, 3: 70, 5: 13}[k], 4000
        random.seed(seed)

        def words():
            v = [rand_bitstring(n) for _ in range(draws)]
            if not all(isinstance(b, bitstring.Bits) for b in v):
                raise vt.BadValue("Bits expected")
            return v

        def enc(v):
            b = [list(map(int, x.bin)) for x in v]
            m = min(map(len, b))
            return dict(lens=sorted({len(x) for x in b}), ones=[sum(x[i] for x in b) for i in range(m)],
                        agree=[sum(x[i] == x[i + d] for x in b) for d in (range(1, m) if draws > 200 else (1, 8, 16, 32, 64, 100, 128, 500)) for i in range(m - d)])
        rec.observe("Bits", words, enc, dict(lens=[], ones=[], agree=[]), n=n, draws=draws)
        rec.new_trace()


def drive(prop, rec):
    {"C41": c41, "C31": c31, "C32": c32, "C33": c33, "C34": c34, "C36": c36, "C39": c39}[prop](rec)
