"""C25, C26: online and two-sided denoisers"""
import numpy as np
import vt
from vt import I, ints, fx, fxs, rng
from inference.dude import OnlineDude, DUDE

LOSS = {2: [[[0, 1], [1, 0]], [[0, 1], [4, 0]], [[0, 3], [1, 0]]],
        3: [[[0, 1, 1], [1, 0, 1], [1, 1, 0]], [[0, 1, 4], [1, 0, 1], [4, 1, 0]], [[0, 2, 2], [1, 0, 3], [1, 1, 0]]]}


def channel(cfg, r):
    a, q = cfg["a"], cfg["q"]
    if not cfg["hard"]:
        a = 2
    if q == 3:
        a = 2
        u, v = r.choice([(7, 6), (5, 8), (8, 6), (6, 7)])
        return a, 0, u, v, np.array([[u, 8 - u], [8 - v, v]]) / 8
    P = np.full((a, a), q / 8)
    np.fill_diagonal(P, 1 - (a - 1) * q / 8)
    return a, q, 0, 0, P


def source(r, a, n, p):
    """a sequence with memory: repeats (p=0), runs, periodic, uniform"""
    if p == 0:
        s, x = [], r.randrange(a)
        for _ in range(n):
            x = x if r.random() < .85 else r.randrange(a)
            s.append(x)
        return s
    if p == 1:
        pat = [r.randrange(a) for _ in range(r.choice([2, 3]))]
        return [pat[i % len(pat)] if r.random() < .9 else r.randrange(a) for i in range(n)]
    if p == 2:
        c = r.randrange(a)
        return [c if r.random() < .9 else r.randrange(a) for _ in range(n)]
    return [r.randrange(a) for _ in range(n)]


def one_r(hard, est, cost):
    if hard:
        return dict(est=I(est), cost=fx(cost, 1000), p=[])
    p = np.asarray(est)
    return dict(est=-1, cost=fx(cost, 1000), p=fxs(p.reshape(-1), 10000))


def new(rec, cls, g, r):
    cfg = g["cfg"]
    a, q, u, v, P = channel(cfg, r)
    L = LOSS[a][cfg["loss"]]
    ok, d = rec.observe("New", lambda: cls(P, np.array(L), cfg["k"], **vt.opts(r, hard_decision=(cfg["hard"], True), alphabet_size=(a, 2))), lambda v: {}, {}, a=a, q=q, u=u, v=v, L=L, k=cfg["k"], hard=cfg["hard"])
    return ok, d, a


def c25(rec):
    r = rng("c25")
    gens = rec.gen()
    for j in range(4):                           # long histories
        cfg = dict(gens[j]["cfg"], k=j % 3, hard=j % 2 == 0)
        gens.append(dict(cfg=cfg, ops=[dict(op="run", v=0)] * (12 if j < 2 else 3) + [dict(op="long", v=0)] + gens[j]["ops"][:5]))
    for g in gens:
        ok, d, a = new(rec, OnlineDude, g, r)
        if not ok:
            continue
        cfg, hard = g["cfg"], g["cfg"]["hard"]

        def sample(y):
            rec.observe("Sample", lambda: d.denoise_sample(y), lambda v: dict(r=one_r(hard, *v)), dict(r=dict(est=-1, cost=0, p=[])), y=int(y))
        for o in g["ops"]:
            if o["op"] == "sample":
                y = r.randrange(a)
                sample(np.int64(y) if o["v"] == 3 else y)
            elif o["op"] == "run":
                for y in source(r, a, 10, cfg["p"]):
                    sample(y)
            elif o["op"] in ("seq", "long"):
                ys = source(r, a, 290 if o["op"] == "long" else r.choice([0, 1, 6, 25]) if o["v"] else 12, cfg["p"])
                arr = np.array(ys, dtype=np.int_)
                rec.observe("Seq", lambda: d.denoise_sequence(arr), lambda v: dict(rs=[one_r(hard, v[0][i], v[1][i]) for i in range(len(v[0]))] if len(v[0]) == len(v[1]) else []),
                            dict(rs=[]), ys=ys)
            elif o["op"] == "init":
                ctx = [r.randrange(a) for _ in range(max(0, cfg["k"] + r.choice([0, 0, 0, 1, -1])))]
                rec.observe("Init", lambda: d.initial_context(tuple(ctx)), lambda v: {}, {}, ctx=ctx)
            elif o["op"] == "bad":
                rec.observe("Bad", lambda: d.denoise_sample(r.choice([a, -1, a + 3])), lambda v: {}, {})
            else:
                rec.observe("Reset", d.reset, lambda v: {}, {})
        rec.new_trace()


def c26(rec):
    r = rng("c26")
    gens = rec.gen()
    gens += [dict(cfg=dict(g["cfg"], k=j % 3, p=[2, 0, 2, 1][j]), ops=g["ops"][:1], long=True) for j, g in enumerate(gens[:4])]
    for g in gens:
        ok, d, a = new(rec, DUDE, g, r)
        if not ok:
            continue
        cfg, hard = g["cfg"], g["cfg"]["hard"]
        for o in g["ops"][:5]:
            n = 420 if "long" in g else r.choice([2 * cfg["k"] or 1, 2 * cfg["k"] + 1, 10, 25, 40])
            ys = source(r, a, n, cfg["p"] if "long" in g else (cfg["p"] + o["v"]) % 4)
            arr = np.array(ys, dtype=np.int_)
            rec.observe("Two", lambda: d.denoise_sequence(arr), lambda v: dict(rs=[one_r(hard, x, 0) for x in v[0]], cost=fx(v[1], 1000)), dict(rs=[], cost=0), ys=ys)
        rec.new_trace()


def drive(prop, rec):
    {"C25": c25, "C26": c26}[prop](rec)
