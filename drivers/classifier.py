"""C29: the buffer classifier"""
import numpy as np
from bitstring import Bits
import vt
from vt import I, ints, fxs, rng
from inference import BufferClassifier


def snapshot(c):
    out = []
    for k in sorted(c.clusters, key=lambda q: q.uid):
        d = np.asarray(k.dist, dtype=float) * k.n_samples
        assert np.allclose(d, np.round(d), atol=1e-6) and np.allclose(d.sum(axis=1), k.n_samples) and len(k) == k.n_samples
        out.append(dict(uid=I(k.uid), n=I(k.n_samples), o=ints(np.round(d[:, 1])), hb=ints(k.hard_bits)))
    return out


def drive(prop, rec):
    r = rng(prop)
    gens = rec.gen()
    ops = [o for q in gens for o in q["ops"]]
    for j, (cd, k, n) in enumerate([("LL", 1, 290), ("LL", 3, 290), ("hamming", 2, 390)]):    # long histories; in the last, one kind of buffer dominates
        gens.append(dict(cfg=dict(gens[j]["cfg"], cd=cd, k=k, np=k), ops=[dict(o, t=int(o["t"] == 3) if k == 2 else o["t"]) for o in ops[j:j + n]], long=True))
    for g in gens:
        c = g["cfg"]
        nb = 16 if "long" in g else r.choice([6, 16, 40])
        p = dict(min=c["min"], k=c["k"], cd=c["cd"], md=c["md"], ws=c["ws"])
        kw = {} if (c["cd"], c["md"], c["ws"]) == ("LL", "Hellinger", "linear") else dict(classify_dist=c["cd"], merge_dist=c["md"], weight_scheme=c["ws"])
        ok, b = rec.observe("NewC", lambda: BufferClassifier(c["min"], c["k"], **kw), lambda v: {}, {}, p=p)
        if not ok:
            continue
        protos = [[r.randrange(2) for _ in range(nb)] for _ in range(c["np"])]
        free = [[r.random() < f for _ in range(nb)] for f in [r.choice([0, 0, .2, .6, 1]) for _ in protos]]
        for o in g["ops"]:
            t = o["t"] % c["np"]
            x = [r.randrange(2) if o["v"] and fr else b for b, fr in zip(protos[t], free[t])]
            for _ in range([0, 0, r.choice([1, 1, 3])][o["v"]]):
                x[r.randrange(nb)] ^= 1
            arg = np.array(x, dtype=np.int_) if r.random() < .7 else Bits(x)
            ok, _ = rec.observe("Classify", lambda: b.classify(arg), lambda v: dict(lab=I(v), cl=snapshot(b)), dict(lab=-9, cl=[]), x=x)
            if not ok:
                break
        rec.new_trace()
