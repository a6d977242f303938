"""C22-C24: the MAVLink rectifying decoder and the two combined decoders over a scripted inner decoder"""
import struct
import numpy as np
import vt
from vt import I, ints, fx, fxs, rng, DIALECT, SCALAR_IDS, frame
from stub import SpaStub, tag_of_soft, tag_of, bits_of, long_ops
from entropy import THR, clip_of
from fields import FMT
from models import U
from inference.statistical_models import BufferModel
from decoders.mavlink_decoder import MavlinkRectifyingDecoder
from decoders.combined_decoder import CombinedDecoder
from decoders.combined_unified_decoder import CombinedUnifiedDecoder

BYTE = [i for i in SCALAR_IDS if all(f["size"] == 1 and f["t"] != "char" for f in DIALECT[i]["fields"])]
WIDE = [i for i in SCALAR_IDS if DIALECT[i]["len"] <= 14 and all(f["t"] in FMT for f in DIALECT[i]["fields"]) and i not in BYTE]
PARITY = 16


class MavChannel:
    """telemetry whose values stay small, so that the specification's integers can hold sums of squares.  Byte-only
    messages may be laid out differently per template; wider ones share the layout.  `free` lists the bits noise may flip"""
    def __init__(self, r, wide, templates, tight=False):
        self.r, self.count, self.tpl = r, 0, []
        if tight:                            # messages fill the buffer
            size = lambda ids: sum(DIALECT[i]["len"] + 8 for i in ids)
            pick = lambda: [r.choice(WIDE if wide else BYTE) for _ in range(r.choice([1, 2]))]
            ids = pick()
            while size(ids) > 24:
                ids = pick()
            self.nbytes, lays = size(ids), [(ids, 0)]
            while len(lays) < templates:
                q = ids if wide else pick()
                if size(q) == self.nbytes:
                    lays.append((q, 0))
        elif wide:
            ids = [r.choice(WIDE) for _ in range(r.choice([1, 1, 2]))]
            self.nbytes = sum(DIALECT[i]["len"] + 8 for i in ids) + (pad := r.choice([0, 0, 2]))
            lead = r.randrange(pad + 1)
            lays = [(ids, lead)] * templates
        else:
            self.nbytes = r.choice([14, 22, 24])
            lays = []
            for _ in range(templates):
                ids = [r.choice(BYTE) for _ in range(2 if self.nbytes > 20 else 1)]
                lays.append((ids, r.randrange(self.nbytes - sum(DIALECT[i]["len"] + 8 for i in ids) + 1)))
        fill = [r.randrange(200) for _ in range(self.nbytes)]
        for ids, lead in lays:
            self.tpl.append(dict(ids=ids, lead=lead, base=[[self.value(f["t"]) for f in DIALECT[i]["fields"]] for i in ids], sys=r.randrange(256), seq=r.randrange(256), fill=fill))
        self.k = 8 * self.nbytes
        self.n = self.k + PARITY
        self.free = list(range(self.k, self.n))
        pos = 0
        ids, lead = lays[0]
        for b in range(self.nbytes):
            if not wide or b < lead:
                self.free += range(8 * b, 8 * b + 8)
        if wide:
            pos = lead
            for i in ids:
                self.free += range(8 * pos, 8 * pos + 48)
                for f in DIALECT[i]["fields"]:
                    o = 8 * (pos + 6 + f["off"])
                    if f["t"] == "float":
                        self.free.append(o + 24)
                    else:
                        self.free += range(o, o + 8)
                        if f["size"] > 1:
                            self.free += [o + 14, o + 15]
                pos += 6 + DIALECT[i]["len"]
                self.free += range(8 * pos, 8 * pos + 16)
                pos += 2
            self.free += range(8 * pos, self.k)
        self.isfree = [False] * self.n
        for b in self.free:
            self.isfree[b] = True

    def value(self, t):
        r = self.r
        if t == "float":
            return r.choice([0, 1, 5, -3, 32, -77, 300]) / 32
        if t in ("uint8_t",):
            return r.randrange(256)
        if t == "int8_t":
            return r.randrange(-128, 128)
        return r.choice([0, 1, 7, 255, 256, 500]) * (1 if t[0] == "u" else r.choice([1, -1]))

    def vary(self, t, x):
        r = self.r
        if t == "float":
            return x + r.choice([-1, 1, 2]) / 32
        if t == "uint8_t":
            return (x + r.choice([1, 2, 255])) % 256
        if t == "int8_t":
            return (x + 128 + r.choice([1, 2, 255])) % 256 - 128
        return max(0, x + r.choice([-1, 1, 2])) if t[0] == "u" else x + r.choice([-1, 1, 2])

    def bytes_of(self, t, v):
        self.count += 1
        T = self.tpl[t % len(self.tpl)]
        b = bytearray(T["fill"])
        pos = T["lead"]
        spots = []
        for mid, base in zip(T["ids"], T["base"]):
            vals = list(base)
            fs = DIALECT[mid]["fields"]
            for j in range(len(vals)):
                if v == 2 or (v == 1 and self.r.random() < .3):
                    vals[j] = self.vary(fs[j]["t"], vals[j])
            p = b"".join(struct.pack(FMT[f["t"]], x) for f, x in zip(fs, vals))
            fr = frame(mid, p, seq=T["seq"] if v == 0 else (T["seq"] + self.count) % 256, sysid=T["sys"], comp=1)
            b[pos:pos + len(fr)] = fr
            spots.append((pos, len(fr)))
            pos += len(fr)
        return bytes(b), spots

    def word(self, kind, t, v, keep_one):
        """codeword: full = intact; part / junk = damaged (where keep_one, one message stays intact)"""
        r = self.r
        b, spots = self.bytes_of(t, v)
        bits = bits_of(b) + [r.randrange(2) for _ in range(PARITY)]
        if kind != "full":
            safe = r.choice(spots) if keep_one else (0, 0)
            rate = .02 if kind == "part" else .2
            for i in self.free:
                if not (8 * safe[0] <= i < 8 * (safe[0] + safe[1])) and r.random() < rate:
                    bits[i] ^= 1
        return bits

    def llr(self, bits, noise):
        r = self.r
        s = r.choice([8, 24, 64])
        if r.random() < .02:
            return [0] * len(bits)
        out = []
        for i, b in enumerate(bits):
            a = r.randrange(0 if self.isfree[i] or not b else 1, s + 1)
            if self.isfree[i] and r.random() < noise:
                b ^= 1
            out.append(-a if b else a)
        return out


def sd(st):
    return dict(k=False, s=[]) if st is None else dict(k=True, s=[[I(a), I(b)] for a, b in st.items()])


def learned(rec, d):
    def enc(_):
        m = d.model
        fs = []
        for name in m.fields_names():
            f = m[name]
            fs.append(dict(n=name, t=f.field_type, size=I(f.model_size), m=fx(f.mean / U(f.field_type), 1000), d=fx(f.std / U(f.field_type), 100)))
        return dict(ss=[sd(x) for x in d.buffer_structures], fs=fs, size=I(m.model_size))
    rec.observe("Learned", lambda: 0, enc, dict(ss=[], fs=[], size=0))


def rich(k):
    """the runs of several clusters whose model is shorter than the telemetry, and whose tail lies about the kind of buffer"""
    return k % 8 not in (0, 7)


def setup(rec, kind, g, r, k, dbg=False):
    cfg = g["cfg"]
    x = cfg["x"]
    ch = MavChannel(r, wide=k % 2 == 0, templates=r.choice([1, 2, 3]))
    kc = [1, 2, 3, 1][x % 4]
    m = ch.k + r.choice([0, 0, 8, PARITY, -8, 8 * (4 - ch.nbytes), -8 * (ch.nbytes // 2)][4 if kc > 1 and rich(k) else 0:])
    stub = SpaStub(ch.n, ch.k)
    pre = x in (2, 5, 8, 11)
    c = dict(kind=kind, k=ch.k, m=m, vt=r.choice([50000, 300000, 700000]), it=r.choice([1000, 50000, 200000]), f10=r.choice([11, 15, 30, 20, 8, 10]), g10=r.choice([9, 5, 2, 7, 0, 12]),
             learn=not pre, passes=r.choice([1, 2, 3]) if kind == "mav" else 1, flip=bool(cfg["min"] % 2), w=cfg["w"], q=[0, 1, 2][cfg["min"] % 3], thr=THR[cfg["thr"]],
             clip8=clip_of(cfg), cc=r.choice([0, 1, 2, 4]), s20=r.choice([5, 10, 40]), kc=kc, min=r.choice([2, 3, 3, 4][rich(k):]), cluster=bool(x % 5), pre=[], dbg=dbg)
    if "long" in g:
        c.update(cc=g["long"][0], s20=g["long"][1], q=0)
    model, prebufs, pw = None, [], cfg["w"]
    if pre:
        model = BufferModel(window_size=cfg["w"] or None)
        T = ch.tpl[0]
        st, pos = {}, T["lead"]
        for mid in T["ids"]:
            st[pos] = mid
            pos += DIALECT[mid]["len"] + 8
        prebufs = [[[a, b] for a, b in st.items()]]
        for _ in range(r.choice([1, 3, 6])):
            b, _s = ch.bytes_of(0, r.choice([0, 0, 1]))
            prebufs.append(list(b))
            model.add_buffer(b, st)
    common = dict(ldpc_decoder=stub, model_length=m, valid_thr=c["vt"] / 1e6, invalid_thr=c["it"] / 1e6, n_clusters=kc, valid_factor=c["f10"] / 10,
                  invalid_factor=c["g10"] / 10, classifier_training_size=c["min"],
                  **vt.opts(r, conf_center=(c["cc"], 0), conf_slope=(c["s20"] / 20, .0)),
                  **vt.opts(r, cluster=(c["cluster"], True), window_length=(c["w"] or None, None), data_model=(model, None), debug=(dbg, False)))
    if kind == "mav":
        f = lambda: MavlinkRectifyingDecoder(**common, **vt.opts(r, segmentation_iterations=(c["passes"], 1)))
    else:
        common.update(entropy_threshold=c["thr"] / 1e6, clipping_factor=clip_of(cfg) / 8, **vt.opts(r, bit_flip=(c["q"] / 8, 0.0)))
        f = (lambda: CombinedDecoder(**common)) if kind == "comb" else (lambda: CombinedUnifiedDecoder(**common, **vt.opts(r, flip=(c["flip"], False))))
    ok, d = rec.observe("NewD", f, lambda v: {}, {}, c=c, pre=prebufs, pw=pw)
    if ok and pre and cfg["min"] != 3:
        if r.random() < .2:
            rec.observe("SetStructs", lambda: d.set_buffer_structures([st] * (kc + 1)), lambda v: {}, {}, ss=[prebufs[0]] * (kc + 1))
        rec.observe("SetStructs", lambda: d.set_buffer_structures([dict(st) for _ in range(kc)]), lambda v: {}, {}, ss=[prebufs[0]] * kc)
    return ok, c, d, ch, stub


def field_figures(q):
    return [] if not q else [I(q["n_fields_in_buffer"]), I(q["n_damaged_fields_in_buffer"])] + ints(q["good_fields_performance"]) + ints(q["bad_fields_performance"])


def force_figures(q):
    return [] if not q else ints(q["bits_confusion_matrix"]) + ints(q["flipping_confusion_matrix"]) + ints(q["forcing_quality"][:5]) + [fx(q["forcing_quality"][5], 100000)]


def analyse(rec, d, r, ch, c):
    """the analysis functions on arbitrary classifications, forced bits and error positions"""
    lab = r.randrange(c["kc"])
    st = d.buffer_structures[lab]
    nf = sum(6 + len(DIALECT[i]["fields"]) for i in st.values()) if st else 4
    if not nf:
        return
    good = [i for i in range(nf) if r.random() < .4]
    bad = [i for i in range(nf) if i not in good and r.random() < .5]
    err = sorted(r.sample(range(ch.n), r.choice([0, 1, 3, 12])))
    forced = sorted(r.sample(range(ch.k), r.choice([0, 1, 5, 20])))
    rx = [r.randrange(2) for _ in range(ch.n)]
    e, f = np.array(err, dtype=np.int_), np.array(forced, dtype=np.int_)
    rec.observe("Analyse", lambda: (d.classifier_analysis(good, bad, e, nf, lab), d.forcing_analysis(f, e, np.array(rx), lab)),
                lambda v: dict(cp=field_figures(v[0]), fp=force_figures(v[1])), dict(cp=[], fp=[]), lab=lab, nf=nf, good=good, bad=bad, err=err, forced=forced, rx=rx, n=ch.n)


def one(rec, kind, g, r, k, dbg=False):
    ok, c, d, ch, stub = setup(rec, kind, g, r, k, dbg)
    if not ok:
        return
    noise = r.choice([.01, .05, .12])
    for o in g["ops"]:
        sent = ch.word("full", o["t"], o["v"], True)
        res = []
        for i in range(c["passes"]):
            good = o["ok1"] if i == 0 else o["ok2"]
            e = o["e1"] if i == 0 else o["e2"]
            est = ch.word("full" if e == "junk" else e, o["t"], o["v"], True) if good else ch.word("junk" if e != "part" else "part", o["t"], o["v"], False)
            res.append(dict(est=est, ok=good, it=r.randrange(1, 50), tag=r.randrange(1, 60)))
        if not o["ok1"] and o["e1"] == "junk":      # a burst
            llr = ch.llr(ch.word("junk", o["t"], o["v"], False), noise)
        else:
            llr = ch.llr(sent, noise)
        if rich(k) and c["kc"] > 1 and r.random() < .5:     # beyond the model bits, the telemetry of another kind: no matter for the label
            tail = ch.word("full", o["t"] + 1, o["v"], True) if r.random() < .5 else [1 - b for b in sent]
            llr = [x if i < c["m"] or not ch.isfree[i] else abs(x) * (1 - 2 * tail[i]) for i, x in enumerate(llr)]
        stub.script = [(x["est"], x["ok"], x["it"], x["tag"]) for x in res]
        stub.calls = []
        arg = np.array(llr, dtype=float) / 8
        err = np.flatnonzero(np.array(sent) != (arg < 0))

        def enc(v):
            out = dict(est=ints(v[0]), okk=vt.Btruthy(v[2]), it=I(v[3]), calls=[fxs(x, 1000) for x in stub.calls])
            t = tag_of_soft(v[1])
            if kind == "mav":
                t = t if tag_of(v[4]) == tag_of(v[5]) == t else -1
                return dict(out, tag=t, lab=I(v[6]), seg=ints(np.asarray(v[7], dtype=int)), good=sorted(ints(v[8])), bad=sorted(ints(v[9])),
                            cp=field_figures(v[10]), fp=force_figures(v[11]))
            return dict(out, tag=t, lab=I(v[4]), seg=[], good=[], bad=[], cp=[], fp=[])
        f = (lambda: d.decode_buffer(arg)) if kind == "uni" and r.random() < .5 else (lambda: d.decode_buffer(arg, err))
        ok, _ = rec.observe("Decode", f, enc, dict(est=[], okk=False, it=0, calls=[], tag=0, lab=-9, seg=[], good=[], bad=[], cp=[], fp=[]), llr=llr, r=res, err=[int(i) for i in err])
        if not ok:
            break
        if dbg:
            analyse(rec, d, r, ch, c)
        else:
            learned(rec, d)
        if kind != "mav" and r.random() < .06:
            rec.observe("BadLen", lambda: d.update_entropy_model(np.array([r.randrange(2) for _ in range(c["m"] + r.choice([-8, -1, 1]))], dtype=np.int_), r.randrange(c["kc"])), lambda v: {}, {})
    rec.new_trace()


def drive(prop, rec):
    r = rng(prop)
    if prop == "C35":
        import decoders.mavlink_decoder, decoders.combined_decoder, decoders.combined_unified_decoder
        mods = [decoders.mavlink_decoder, decoders.combined_decoder, decoders.combined_unified_decoder]
        for k, g in enumerate(rec.gen()):
            one(rec, ["mav", "comb", "mav", "uni"][k // 2 % 4], g, r, k, dbg=True)
            p, a = ([r.randrange(9) for _ in range(r.randrange(7))] for _ in range(2))
            a = sorted(set(a))
            neg = r.randrange(20)
            arg = r.choice([p, np.array(p, dtype=np.int_)])
            rec.observe("Table", lambda: mods[k % 3].confusion(arg, np.array(a, dtype=np.int_), neg), lambda v: dict(t=ints(v)), dict(t=[]), p=p, a=a, neg=neg)
        return
    for k, g in enumerate(rec.gen()):
        one(rec, {"C22": "mav", "C23": "mav", "C24": ["comb", "uni"][(k // 2) % 2]}[prop], g, r, k)
    gens = rec.gen()
    for j, (w, steps) in enumerate([(0, 150), (110, 140)] * (2 if prop == "C24" else 1)):
        cfg = dict(gens[j]["cfg"], w=w, x=[0, 9][j % 2], thr=[5, 3][j % 2])
        one(rec, {"C22": "mav", "C23": "mav", "C24": ["comb", "uni"][j // 2]}[prop], dict(cfg=cfg, ops=long_ops(gens[j:], steps, 11), long=[(0, 0), (40, 7)][j % 2]), r, 2 * j + 1)
