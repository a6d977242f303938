"""C20: complete decoders over real LDPC decoders of small codes"""
import numpy as np
import vt
from vt import I, ints, rng, DIALECT
from entropy import CLIP
from mav import MavChannel
from ldpc.decoder import LogSpaDecoder, WbfDecoder, WbfVariant, GalBfDecoder, bsc_llr
from decoders.entropy_bitwise_decoder import EntropyBitwiseDecoder, EntropyBitwiseFlippingDecoder, EntropyBitwiseWeightedDecoder
from decoders.classifiying_decoder import ClassifyingEntropyDecoder
from decoders.classifying_DUDE_decoder import ClassifyingDudeDecoder
from decoders.mavlink_decoder import MavlinkRectifyingDecoder
from decoders.combined_decoder import CombinedDecoder
from decoders.combined_unified_decoder import CombinedUnifiedDecoder
from decoders.turbo import TurboDecoder

KINDS = ["entropy", "mav", "classify", "weighted", "comb", "flip", "uni", "dude", "turbo", "wbf", "gal"]


def code(r, k):
    """regular parity checks [A | I]: every info bit in two checks, every check on four info bits"""
    p = k // 2
    a = np.zeros((p, k), dtype=np.int_)
    while True:
        s = list(range(k)) * 2
        r.shuffle(s)
        rows = [s[4 * i:4 * i + 4] for i in range(p)]
        for i in range(p):                       # a check on the same bit twice: swap with another check
            while len(set(rows[i])) < 4:
                d = next(x for x in rows[i] if rows[i].count(x) > 1)
                j, c = r.randrange(p), r.randrange(4)
                x = rows[j][c]
                if x not in rows[i] and d not in rows[j]:
                    rows[i][rows[i].index(d)], rows[j][c] = x, d
        if all(len(set(q)) == 4 for q in rows):
            break
    for i, q in enumerate(rows):
        a[i, q] = 1
    return a, np.concatenate([a, np.eye(p, dtype=np.int_)], axis=1)


def build(kind, h, info, k, c, cfg, r, bp):
    n = h.shape[1]
    it = r.choice([4, 8])
    spa = lambda cm=None: LogSpaDecoder(h, it, info, cm, decoder_type="BP" if bp else "MS")
    thr, clip, w = .3, CLIP[cfg["clip"]], cfg["w"] or None
    x = cfg["x"]
    kc, cl, tr = c["kc"], c["cluster"], 2
    if kind == "entropy":
        return EntropyBitwiseDecoder(spa(), c["m"], thr, clip, cfg["min"], w), spa()
    if kind == "flip":
        cm = bsc_llr(.1)
        return EntropyBitwiseFlippingDecoder(spa(cm), c["m"], thr, cfg["min"], w), spa(cm)
    if kind == "weighted":
        return EntropyBitwiseWeightedDecoder(spa(), c["m"], thr, clip, w, a_conf_center=0, a_conf_slope=.5, b_conf_center=0, b_conf_slope=.5, confidence=x % 6, bit_flip=[0, .1][x // 6]), spa()
    if kind in ("classify", "wbf", "gal"):
        inner = spa() if kind == "classify" else GalBfDecoder(h, it, info) if kind == "gal" else WbfDecoder(h, it, [WbfVariant.WBF, WbfVariant.MWBF][x % 2], info)
        return ClassifyingEntropyDecoder(inner, c["m"], thr, clip, tr, kc, window_length=w, conf_center=0, conf_slope=.5, bit_flip=[0, .1][x // 6], cluster=int(cl)), None
    if kind == "dude":
        return ClassifyingDudeDecoder(spa(), c["m"], clip, tr, kc, cfg["min"], 0, .5, .125, int(cl)), None
    if kind == "turbo":
        return TurboDecoder(EntropyBitwiseDecoder(spa(), c["m"], thr, clip, cfg["min"], w), spa(), 1 + x % 2, debug=bool(x % 3)), spa()
    common = dict(ldpc_decoder=spa(), model_length=c["m"], valid_thr=.3, invalid_thr=.05, n_clusters=kc, valid_factor=[1.2, 2][x % 2], invalid_factor=.5,
                  classifier_training_size=tr, cluster=cl, window_length=w, conf_center=0, conf_slope=.5)
    if kind == "mav":
        return MavlinkRectifyingDecoder(**common, segmentation_iterations=1 + x % 3), None
    common.update(entropy_threshold=thr, clipping_factor=clip, bit_flip=[0, .1][x // 6])
    return (CombinedDecoder(**common), None) if kind == "comb" else (CombinedUnifiedDecoder(**common, flip=bool(x % 2)), None)


def one(rec, kind, g, r, k):
    cfg = g["cfg"]
    x = cfg["x"]
    ch = MavChannel(r, wide=k % 2 == 0, templates=3, tight=True)
    T = ch.tpl[0]
    a, h = code(r, ch.k)
    n = h.shape[1]
    info = np.arange(n) < ch.k
    two = kind in ("entropy", "flip", "weighted", "turbo")
    m = ch.k if kind == "mav" else ch.k - [0, 0, 8][x % 3] if kind in ("classify", "dude", "comb", "uni") else ch.k
    labels = kind in ("classify", "dude", "mav", "comb", "uni", "wbf", "gal")
    need = {"entropy": max(1, cfg["min"]), "turbo": max(1, cfg["min"]), "flip": max(1, cfg["min"]), "weighted": 2, "classify": 2, "mav": 1, "comb": 2, "uni": 2}.get(kind, 0)
    names = [f"{i}_{f['n']}" for i in T["ids"] for f in DIALECT[i]["fields"]]
    if (cfg["w"] and need > cfg["w"]) or len(set(names)) < len(names):      # two messages of one kind share their field models
        need = 0
    c = dict(kind=kind, inner=kind if kind in ("wbf", "gal") else "spa", n=n, k=ch.k, m=m, two=two, min=need, fields=kind == "mav",
             kc=[1, 2, 2][x % 3] if labels else 1, cluster=bool(x % 2))
    H = [[int(j) + 1 for j in np.flatnonzero(row)] for row in h]
    ok, exc, v = vt.call(build, kind, h, info, ch.k, c, cfg, r, k % 3 == 1)
    rec.emit("NewD", name=f"trace-{k % 6}", ok=ok, exc=exc, c=c, H=H)
    if not ok:
        return
    d, plain = v
    np.random.seed(vt.SEED * 1000 + k)
    for o in g["ops"]:
        if kind == "dude" and o["t"] == 0 and r.random() < .8:   # learns what it receives: keep it clean for longer
            o = dict(o, n="clean", v=0)
        b, spots = ch.bytes_of(o["t"], o["v"])
        data = np.unpackbits(np.frombuffer(b, dtype=np.uint8)).astype(int)
        sent = np.concatenate([data, a @ data % 2])
        fb = [i for p, ln in spots for i in range(8 * (p + 6), 8 * (p + ln - 2))]
        flip = {"clean": [], "few": r.sample(range(n), r.choice([1, 2, 3])), "model": [i for i in range(m) if r.random() < ([.3, .5] if two else [.1, .3])[o["v"]]],
                "field": [i for i in fb if r.random() < .3] or fb[:1], "heavy": [i for i in range(n) if r.random() < .15]}[o["n"]]
        rx = sent.copy()
        rx[flip] ^= 1
        if kind == "flip":
            arg = rx.astype(np.int_)
            llr = [-1 if y else 1 for y in rx]
        else:
            s = r.choice([9, 24, 64])
            llr = [(-1) ** int(y) * r.randrange(8, s + 1) for y in rx]
            arg = np.array(llr, dtype=float) / 8
        plok, pl = False, []
        if plain is not None:
            q = plain.decode(arg)
            pl, plok = ints(q[0]), bool(q[2])
        err = np.array(sorted(flip), dtype=np.int_)

        def enc(v):
            soft = np.asarray(v[1])
            out = dict(est=ints(v[0]), neg=[int(y < 0) for y in soft], okk=vt.Btruthy(v[2]), syn=[], vv=[], lab=0)
            if kind in ("weighted", "classify", "mav", "wbf", "gal"):
                out["syn"], out["vv"] = ints(v[4]), [] if kind == "wbf" else ints(v[5])
            if labels:
                out["lab"] = I(v[{"classify": 8, "wbf": 8, "gal": 8, "mav": 6, "dude": 4, "comb": 4, "uni": 4}[kind]])
            return out
        f = (lambda: d.decode_buffer(arg, err)) if kind in ("mav", "comb", "uni", "turbo") else (lambda: d.decode_buffer(arg))
        ok, _ = rec.observe("Decode", f, enc, dict(est=[], neg=[], okk=False, syn=[], vv=[], lab=-9), name=f"trace-{k % 6}", llr=llr, sent=ints(sent), fb=[i + 1 for i in fb], plok=plok, plain=pl, n=o["n"])
        if not ok:
            break
    rec.new_trace()


def drive(prop, rec):
    r = rng(prop)
    for k, g in enumerate(rec.gen()):
        one(rec, KINDS[k % len(KINDS)], g, r, k)
