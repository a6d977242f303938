"""C18, C19: the classifying entropy decoder over scripted inner decoders"""
import numpy as np
import vt
from vt import I, ints, fx, fxs, rng
from stub import SpaStub, WbfStub, GalStub, Channel, tag_of_soft, tag_of, long_ops, TINY, LONG
from entropy import THR, clip_of
from decoders.classifiying_decoder import ClassifyingEntropyDecoder


def one(rec, g, r, inner, k, long=None):
    cfg = g["cfg"]
    ch = Channel(r, nmsg=1, fixed_len=[TINY], templates=2) if long else Channel(r, nmsg=1, templates=r.choice([1, 2, 3, 4]))
    kinfo = ch.m + [0, 8, -8][k % 3]
    stub = {"spa": SpaStub, "wbf": WbfStub, "gal": GalStub}[inner](ch.n, kinfo)
    x = cfg["x"]
    q = [0, 1, 2][x % 3]
    w = cfg["w"] or (5 if q else 0)
    meth = 3 if inner == "gal" and x % 2 and w else 0
    c = dict(m=ch.m, thr=THR[cfg["thr"]], clip8=clip_of(cfg), w=w, q=q, cc=r.choice([0, 2, 4]), s20=r.choice([5, 10]), kc=[1, 2, 3, 2][x % 4],
             min=r.choice([2, 3, 4]), cluster=bool(x % 5), pre=[], inner=inner, meth=meth)
    model = None
    if long:
        c.update(w=long[0], q=0, cc=40, s20=7, kc=long[1], cluster=long[2], meth=0)
        w, meth = long[0], 0
    elif x in (3, 11):
        n = r.choice([4, 5, 8])
        vals = r.choice([[0, 0, 1, n // 2, n - 1, n, n], [n // 2, n - 1, n], [0, 1, n // 2], [n // 2, n], [1, n // 2, n - 1], [1, n - 1]])
        c["pre"] = [[r.choice(vals), n] for _ in range(ch.m)]
        model = np.array([[1 - a / b, a / b] for a, b in c["pre"]] + [[.5, .5]] * 8)
        c["q"] = 0
    kw = vt.opts(r, window_length=(w or None, None), bit_flip=(c["q"] / 8, 0.0), cluster=(int(c["cluster"]), 1), data_model=(model, None), reliability_method=(meth, 0))
    if long:
        kw.update(vt.opts(r, conf_center=(40, 40), conf_slope=(.35, .35)))
    else:
        kw.update(conf_center=c["cc"], conf_slope=c["s20"] / 20)
    ok, d = rec.observe("NewD", lambda: ClassifyingEntropyDecoder(
        stub, ch.m, c["thr"] / 1e6, clip_of(cfg) / 8, c["min"], c["kc"], **kw), lambda v: {}, {}, c=c)
    if not ok:
        return
    for o in g["ops"]:
        okk = o["ok1"]
        w1 = ch.word(ch.data(o["e1"] if o["e1"] != "junk" or r.random() < .3 else "full", o["t"], o["v"]))
        llr = ch.llr(w1, noise=r.choice([0, .05, .15]), scale=r.choice([None, None, 200]))
        est = w1 if okk else ch.word(ch.data("junk", 0, 0))
        tag = r.randrange(1, 60)
        res = dict(est=est, ok=okk, it=r.randrange(1, 50), tag=tag)
        stub.script = [(est, okk, res["it"], tag)]
        stub.calls, stub.extra = [], []
        arg = np.array(llr, dtype=float) / 8

        def enc(v):
            soft = len(v[1]) > 0
            t = tag_of(v[4])
            if t != tag_of(v[5]) or (soft and t != tag_of_soft(v[1])):
                t = -1
            p = np.asarray(v[6])
            pr = stub.extra[-1] if stub.extra else None
            return dict(est=ints(v[0]), soft=soft, okk=vt.Btruthy(v[2]), it=I(v[3]), tag=t, p=fxs(p[:, 1], 10000) if p.size else [], s=ints(v[7]), lab=I(v[8]),
                        call=ints(stub.calls[0]) if inner == "gal" else fxs(stub.calls[0], 1000), ncalls=len(stub.calls),
                        prior=[] if pr is None else fxs(pr, 1000))
        ok, _ = rec.observe("Decode", lambda: d.decode_buffer(arg), enc,
                            dict(est=[], soft=False, okk=False, it=0, tag=0, p=[], s=[], lab=-9, call=[], ncalls=0, prior=[]), llr=llr, r=res)
        if not ok:
            break
        if not c["pre"] and r.random() < .06:
            rec.observe("BadLen", lambda: d.update_model(np.array([r.randrange(2) for _ in range(ch.m + r.choice([-8, -1, 1]))], dtype=np.int_), r.randrange(c["kc"])), lambda v: {}, {})
    rec.new_trace()


def drive(prop, rec):
    r = rng(prop)
    for k, g in enumerate(rec.gen()):
        one(rec, g, r, "spa" if prop == "C18" else ["wbf", "gal", "spa"][k % 3], k)
    gens = rec.gen()
    for j, (w, steps, keep) in enumerate(LONG):
        cfg = dict(gens[j % len(gens)]["cfg"], w=w, thr=[5, 3, r.randrange(6)][j])
        one(rec, dict(cfg=cfg, ops=long_ops(gens[j:], steps, keep)), r, "spa" if prop == "C18" else ["wbf", "gal", "spa"][(j + vt.SEED) % 3], 0, long=(w, [1, 1, 2][j], j != 1))
