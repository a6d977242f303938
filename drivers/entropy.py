"""C14-C17: entropy bitwise, flipping and weighted decoders over a scripted inner decoder"""
import numpy as np
import vt
from vt import I, ints, fx, fxs, rng
from stub import SpaStub, Channel, tag_of_soft, tag_of, long_ops, TINY, LONG
from decoders.entropy_bitwise_decoder import EntropyBitwiseDecoder, EntropyBitwiseFlippingDecoder, EntropyBitwiseWeightedDecoder

THR = [206908, 523411, 620847, 787741, 899793, 1100000]      # between any two reachable entropies
CLIP = [1, 2, 5, 20]


def clip_of(cfg):
    """clipping factor of a generated configuration, in eighths; also below one and fractional"""
    return [[8, 4], [16, 12], [40, 18], [160, 80]][cfg["clip"]][(cfg["thr"] + cfg["min"]) % 2]


def make(kind, g, ch, r, stub, long=False):
    cfg = g["cfg"]
    w = cfg["w"]
    c = dict(kind=kind, m=ch.m, thr=THR[cfg["thr"]], clip8=clip_of(cfg), min=cfg["min"], w=w, pre=[], q=0, ca=0, cb=0, s20=0, sb20=0, scheme=0, tol=0)
    thr = c["thr"] / 1e6
    if long and kind == "weighted":
        c.update(scheme=[0, 1, 2, 3, 5][cfg["x"] % 5], ca=20, cb=40, s20=7, sb20=7, tol=30)
        kw = dict(a_conf_center=20, a_conf_slope=.35, b_conf_center=40, b_conf_slope=.35)
        return c, EntropyBitwiseWeightedDecoder(stub, ch.m, thr, clip_of(cfg) / 8, **vt.opts(r, window_length=(w or None, None), confidence=(c["scheme"], 0), **{k: (v, v) for k, v in kw.items()}))
    if kind == "weighted":
        x = cfg["x"]
        c["scheme"] = x % 6
        corrected = x >= 6
        c["q"] = r.choice([1, 2]) if corrected else 0
        if corrected and w == 0:
            w = c["w"] = 5
        c["ca"], c["cb"], c["s20"], c["sb20"] = r.choice([0, 2, 4]), r.choice([1, 3, 6]), r.choice([5, 10]), r.choice([7, 14])
        c["tol"] = 80 if c["scheme"] == 4 else 30
        flip = c["q"] / 8 if corrected else r.choice([0, .1])
        if c["scheme"] != 4 and r.random() < .3:             # Bayes estimator, fewer than 2 * window_length buffers: the mode of the posterior
            c["w"], c["q"] = 0, 2 if corrected else 0        # it always corrects
            flip = c["q"] / 8
            return c, EntropyBitwiseWeightedDecoder(stub, ch.m, thr, clip_of(cfg) / 8, r.choice([40, 64]), a_conf_center=c["ca"], a_conf_slope=c["s20"] / 20,
                                                    b_conf_center=c["cb"], b_conf_slope=c["sb20"] / 20, confidence=c["scheme"], estimator="Bayes", bit_flip=flip)
        d = EntropyBitwiseWeightedDecoder(stub, ch.m, thr, clip_of(cfg) / 8, a_conf_center=c["ca"], a_conf_slope=c["s20"] / 20,
                                          b_conf_center=c["cb"], b_conf_slope=c["sb20"] / 20,
                                          **vt.opts(r, window_length=(w or None, None), confidence=(c["scheme"], 0), estimator=("MLE", "MLE"), bit_flip=(float(flip), 0.0), corrected_dist=(corrected, False)))
        return c, d
    model = None
    if cfg["x"] in (0, 1):
        n = r.choice([4, 5, 8])
        ln = ch.m if cfg["x"] == 0 else r.choice([ch.m - 8, ch.m + 8, 8])
        pre = [[r.choice([0, 0, 1, n // 2, n - 1, n, n]), n] for _ in range(ln)]
        model = np.array([[1 - k / n, k / n] for k, n in pre])
        c["m"] = min(ln, ch.m)
        c["pre"] = pre[:c["m"]]
    if kind == "entropy":
        return c, EntropyBitwiseDecoder(stub, ch.m, thr, clip_of(cfg) / 8, cfg["min"], **vt.opts(r, window_length=(w or None, None), model=(model, None)))
    return c, EntropyBitwiseFlippingDecoder(stub, ch.m, thr, cfg["min"], **vt.opts(r, window_length=(w or None, None), model=(model, None)))


def one(rec, kind, g, r, probe, long=False):
    ch = Channel(r, nmsg=1, fixed_len=[TINY]) if long else Channel(r, nmsg=r.choice([1, 1, 2]))
    stub = SpaStub(ch.n, r.choice([ch.m, ch.m + 1, ch.m + 4]))       # information bits that are no telemetry
    ok, exc, v = vt.call(make, kind, g, ch, r, stub, long)
    if not ok:
        rec.emit("NewD", ok=False, exc=exc, c=dict(kind=kind, w=0))
        return
    c, d = v
    rec.emit("NewD", ok=True, exc="", c=c)
    ops = list(g["ops"])
    if probe:   # after every step, ask the decoder what it makes of a failing word: reveals the whole learned model
        ops = [y for o in ops for y in (o, dict(ok1=False, ok2=False, e1="junk", e2="junk", t=o["t"], v=1))][:2 * len(ops)]
    for o in ops:
        w1, w2 = ch.word(ch.data(o["e1"], o["t"], o["v"])), ch.word(ch.data(o["e2"], o["t"], o["v"]))
        if kind == "flip":
            llr = [b ^ (r.random() < .1) for b in w1]
            arg = np.array(llr, dtype=np.int_)
        else:
            llr = ch.llr(w1)
            arg = np.array(llr, dtype=float) / 8
        tags = r.sample(range(1, 60), 2)
        res = [dict(est=w1, ok=o["ok1"], it=r.randrange(1, 50), tag=tags[0]), dict(est=w2, ok=o["ok2"], it=r.randrange(1, 50), tag=tags[1])]
        stub.script = [(x["est"], x["ok"], x["it"], x["tag"]) for x in res]
        stub.calls = []
        extra = dict(sa=[], sb=[], pa=[], pb=[])

        def enc(v):
            out = dict(est=ints(v[0]), okk=vt.Btruthy(v[2]), it=I(v[3]), llrtag=tag_of_soft(v[1]), calls=[ints(x) if kind == "flip" else fxs(x, 1000) for x in stub.calls])
            if kind == "weighted":
                if not (tag_of(v[4]) == tag_of(v[5]) == out["llrtag"]):
                    out["llrtag"] = -1
                col = lambda a: fxs(a[:, 1], 10000) if a.size else []
                return dict(out, nm=I(v[6]), pa=col(v[7]), pb=col(v[8]), sa=ints(v[9]), sb=ints(v[10]))
            return dict(out, nm=I(v[4]))
        ok, _ = rec.observe("Decode", lambda: d.decode_buffer(arg), enc, dict(est=[], okk=False, it=0, llrtag=0, calls=[], nm=0, **extra), llr=[int(x) for x in llr], r=res)
        if not ok:
            break
        if not c["pre"] and r.random() < .06:                # a refused update, after which everything goes on as before
            for f in ([d.update_model_a, d.update_model_b] if kind == "weighted" else [d.update_model]):
                rec.observe("BadLen", lambda: f(np.array([r.randrange(2) for _ in range(ch.m + r.choice([-8, -1, 1]))], dtype=np.int_)), lambda v: {}, {})
    rec.new_trace()


def drive(prop, rec):
    r = rng(prop)
    for k, g in enumerate(rec.gen()):
        if k % 4 == 3:                       # most buffers are recovered: windows fill up and move on
            g["ops"] = long_ops([g], len(g["ops"]), 4)
        if prop == "C14":
            g["cfg"]["thr"] = 5 if k % 2 else g["cfg"]["thr"]
            one(rec, ["entropy", "weighted", "flip"][k % 3], g, r, probe=k % 2 == 1)
        else:
            one(rec, {"C15": "entropy", "C16": "flip", "C17": "weighted"}[prop], g, r, probe=k % 3 == 0)
    gens = rec.gen()
    for j, (w, steps, keep) in enumerate(LONG):
        kind = {"C15": "entropy", "C16": "flip", "C17": "weighted"}.get(prop, ["weighted", "entropy", "flip"][(j + vt.SEED) % 3])
        cfg = dict(gens[j % len(gens)]["cfg"], w=w, min=[0, 110, 2][j], thr=[5, 3, r.randrange(6)][j])
        cfg["x"] = cfg["x"] if kind == "weighted" else 7       # learned models
        one(rec, kind, dict(cfg=cfg, ops=long_ops(gens[j:], steps, keep)), r, False, long=True)
