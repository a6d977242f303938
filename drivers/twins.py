"""C21: twins fed the same values give the same answers, however calls interleave and whatever the caller does to its buffers"""
import copy
import hashlib
import json
import random
import numpy as np
import vt
from vt import rng, DIALECT
from stub import Script, LogSpaDecoder, Channel, bits_of
from entropy import THR, clip_of
from mav import MavChannel
from decoders.entropy_bitwise_decoder import EntropyBitwiseDecoder, EntropyBitwiseFlippingDecoder, EntropyBitwiseWeightedDecoder
from decoders.classifiying_decoder import ClassifyingEntropyDecoder
from decoders.classifying_DUDE_decoder import ClassifyingDudeDecoder
from decoders.mavlink_decoder import MavlinkRectifyingDecoder
from decoders.combined_decoder import CombinedDecoder
from decoders.combined_unified_decoder import CombinedUnifiedDecoder
from decoders.turbo import TurboDecoder
from inference import BufferSegmentation
from inference.clustering import BufferClassifier
from inference.statistical_models import BufferModel
from inference.dude import OnlineDude, DUDE
from inference.entropy_mle import EMLE
from inference.bmm import BMM
from protocol_meta import dialect_meta as meta
from utils.information_theory import prob, entropy, hellinger
from utils.performance_analysis import ber, stats
from utils.bit_operations import hamming_distance


def norm(v):
    if isinstance(v, np.ndarray):
        return ["a"] + [norm(x) for x in v.tolist()]
    if isinstance(v, (list, tuple)):
        return [norm(x) for x in v]
    if isinstance(v, dict):
        return ["d"] + sorted([norm(k), norm(x)] for k, x in v.items())
    if isinstance(v, (bool, np.bool_)):
        return int(v)
    if isinstance(v, (int, np.integer)):
        return f"{float(v):.6g}"
    if isinstance(v, (float, np.floating)):
        return f"{float(v) + 0.0:.6g}".replace("-0", "0") if v == 0 else f"{float(v):.6g}"
    if isinstance(v, (bytes, bytearray)):
        return v.hex()
    return str(v) if v is None or isinstance(v, str) else getattr(v, "name", type(v).__name__)


def dig(v):
    return hashlib.sha1(json.dumps(norm(v)).encode()).hexdigest()[:12]


class FuncStub(Script, LogSpaDecoder):
    """result is a function of the input alone"""
    def __init__(self, n, k):
        self._setup(n, k)

    def decode(self, channel_word, max_iter=None):
        w = np.array(channel_word, dtype=float)
        hard = set(np.unique(w)) <= {0., 1.}
        hb = np.array(w > .5 if hard else w < 0, dtype=np.int_)
        z = hashlib.sha1(hb.tobytes()).digest()
        ok = z[0] % 3 != 0
        if not ok and z[4] % 2:
            hb[z[1] % len(hb)] ^= 1
        return hb, np.where(hb > 0, -1., 1.) * (np.abs(w) + 1), ok, 1 + z[2] % 9, np.full(self.m, 0 if ok else 1), np.full(self.n, z[3] % 4)


class Subject:
    """one kind of component: make() a new instance, inputs for every step, call"""
    def __init__(self, kind, g, r, k):
        self.kind, self.cfg, self.seed = kind, g["cfg"], r.randrange(10 ** 9)
        self.wide = k % 2 == 0
        self.ch = MavChannel(r, wide=self.wide, templates=3, tight=True)
        self.n = self.ch.n
        self.m = self.ch.k - [0, 8][self.cfg["x"] % 2] if kind in ("comb", "uni", "classify", "dude") else self.ch.k
        self.struct = {}
        pos = 0
        for i in self.ch.tpl[0]["ids"]:
            self.struct[pos] = i
            pos += DIALECT[i]["len"] + 8

    def make(self):
        c, r = self.cfg, random.Random(self.seed)
        stub = lambda: FuncStub(self.n, self.ch.k)
        thr, clip, w = THR[c["thr"]] / 1e6, clip_of(c) / 8, c["w"] or None
        x = c["x"]
        kc, cl, tr = [1, 2, 3][x % 3], x % 2, 2 + x % 3
        k = self.kind
        if k == "entropy":
            return EntropyBitwiseDecoder(stub(), self.m, thr, clip, c["min"], w)
        if k == "flip":
            return EntropyBitwiseFlippingDecoder(stub(), self.m, thr, c["min"], w)
        if k == "weighted":
            return EntropyBitwiseWeightedDecoder(stub(), self.m, thr, clip, w or 5, a_conf_center=1, b_conf_center=2, confidence=x % 6, bit_flip=.1, corrected_dist=x >= 6)
        if k == "bayes":
            return EntropyBitwiseWeightedDecoder(stub(), self.m, thr, clip, w or 5, a_conf_center=1, b_conf_center=2, confidence=x % 4, bit_flip=.1, estimator="Bayes")
        if k == "classify":
            return ClassifyingEntropyDecoder(stub(), self.m, thr, clip, tr, kc, window_length=w, conf_center=1, conf_slope=.5, bit_flip=.1, cluster=cl)
        if k == "dude":
            return ClassifyingDudeDecoder(stub(), self.m, clip, tr, kc, c["min"], 1, .5, .125, cl)
        if k == "turbo":
            return TurboDecoder(EntropyBitwiseDecoder(stub(), self.m, thr, clip, c["min"], w), stub(), 1 + x % 3)
        if k in ("mav", "comb", "uni"):
            common = dict(ldpc_decoder=stub(), model_length=self.m, valid_thr=.3, invalid_thr=.05, n_clusters=kc, valid_factor=1.5, invalid_factor=.5,
                          classifier_training_size=tr, cluster=cl, window_length=w, conf_center=1, conf_slope=.5, debug=x >= 6)
            if k == "mav":
                return MavlinkRectifyingDecoder(**common, segmentation_iterations=1 + x % 3)
            common.update(entropy_threshold=thr, clipping_factor=clip, bit_flip=.1)
            return CombinedDecoder(**common) if k == "comb" else CombinedUnifiedDecoder(**common, flip=x % 2)
        if k == "seg":
            return BufferSegmentation(meta.protocol_parser)
        if k == "model":
            return BufferModel(window_size=w)
        if k == "classifier":
            return BufferClassifier(tr, kc, classify_dist=["LL", "hamming"][x % 2], merge_dist=["Hellinger", "KlDiv"][c["min"] % 2], weight_scheme=["linear", "sqrt", "none"][x % 3])
        if k == "online":
            return OnlineDude(np.array([[.9, .1], [.1, .9]]), np.array([[0, 1], [1, 0]]), c["min"], hard_decision=bool(x % 2))
        if k == "dude2":
            return DUDE(np.array([[.9, .1], [.1, .9]]), np.array([[0, 1], [1, 0]]), c["min"], hard_decision=bool(x % 2))
        if k == "emle":
            return EMLE(.1, thr, c["w"], 1, .5, hard_decision=bool(x % 2), soft_input=x // 2 % 3 > 0)
        if k == "bmm":
            b = BMM(2, 3)
            b.mu, b.pi = np.array([[.25, .5, .75, .3], [.6, .2, .1, .8]]), np.array([.4, .6])
            return b
        return None                                 # plain functions

    def inputs(self, o, step):
        """name of the call and its arguments (values owned by the caller)"""
        r = random.Random(f"{self.seed}:{step}:{json.dumps(o)}")
        self.ch.r = r
        self.ch.count = step
        bits = self.ch.word({"good": "full", "clean": "full"}.get(o["e"], o["e"]), o["t"], o["v"], False)
        k = self.kind
        hard = np.array(bits, dtype=np.int_)
        soft = np.array(self.ch.llr(bits, 0 if o["e"] in ("good", "clean") else .05), dtype=float) / 8 + (hard * -2 + 1) * .01
        if k == "flip":
            return "decode_buffer", [hard]
        if k in ("mav", "comb", "uni") and step == self.cfg["x"] % 5 + 1 and self.cfg["x"] < 9:
            kc = [1, 2, 3][self.cfg["x"] % 3]
            return "set_buffer_structures", [[dict(self.struct) if q or not r.randrange(2) else None for q in range(kc)]]
        if k in ("mav", "comb", "uni", "turbo"):
            return "decode_buffer", [soft, np.array(sorted(r.sample(range(self.ch.k), r.randrange(1, 6))), dtype=np.int_)]
        if k in ("entropy", "weighted", "bayes", "classify", "dude"):
            return "decode_buffer", [soft]
        info = hard[:self.ch.k]
        if k == "seg":
            return "segment_buffer", [np.packbits(info).tobytes()]
        if k == "model":
            return ("add_buffer" if step % 3 != 2 else "predict"), [info, dict(self.struct)]
        if k == "classifier":
            return "classify", [info]
        if k == "online":
            return [("denoise_sequence", [info[:12]]), ("initial_context", [info[:self.cfg["min"]]]), ("denoise_sequence", [info[5:9]])][0 if step == 0 else step % 3]
        if k == "dude2":
            return "denoise_sequence", [info[:40]]
        if k == "emle":
            data = soft if self.cfg["x"] // 2 % 3 > 0 else hard
            return ("denoise_buffer", [data[:24]]) if (step + self.cfg["x"] // 6) % 2 else ("denoise_sequence", [data[:24].reshape(2, 12).repeat(2, axis=1)])
        if k == "bmm":
            return ["predict", "score_samples", "score"][step % 3], [info[:16].reshape(4, 4)]
        p = np.abs(soft[:12]).reshape(3, 4) + .1
        p /= p.sum(axis=1, keepdims=True)
        return [("prob", [info[:24].reshape(4, 6)]), ("entropy", [p]), ("hellinger", [p, p[::-1].copy()]), ("ber", [hard, info.repeat(2)[:len(hard)].copy()]),
                ("stats", [info[:24] % 2, hard[24:48] % 2]), ("hamming_distance", [info, info[::-1].copy()])][step % 6]

    def call(self, inst, name, args):
        if inst is None:
            return {"prob": prob, "entropy": entropy, "hellinger": hellinger, "ber": ber, "stats": stats, "hamming_distance": hamming_distance}[name](*args)
        if name == "initial_context":
            return inst.initial_context(tuple(int(v) for v in args[0]))
        return getattr(inst, name)(*args)


def scribble(v):
    if isinstance(v, np.ndarray) and v.size and v.flags.writeable:
        v[...] = ~v if v.dtype == np.bool_ else 1 - v if v.dtype.kind in "iuf" else None if v.dtype.kind == "O" else v[::-1]
    elif isinstance(v, dict):
        v.clear()
    elif isinstance(v, list):
        for x in v:
            scribble(x)
        v.clear()


KINDS = ["entropy", "mav", "classify", "comb", "weighted", "flip", "uni", "dude", "turbo", "seg", "model", "classifier", "online", "dude2", "emle", "bmm", "functions", "bayes"]
DECODERS = {"entropy", "mav", "classify", "comb", "weighted", "flip", "uni", "dude", "turbo", "bayes"}


def one(rec, g, r, k):
    kind = KINDS[k % len(KINDS)]
    s = Subject(kind, g, r, k)
    name = f"trace-{k % 5}"
    inst = {}

    def new(i, cfg, fresh):
        ok, exc, v = vt.call(s.make)
        rec.emit("New", name=name, ok=ok, exc=exc, i=i, cfg=cfg, fresh=fresh)
        inst[i] = v
        return ok
    if not (new(1, kind, True) and new(2, kind, False) and new(3, "other " + kind, False)):
        return
    at = {1: 0, 2: 0, 3: 0, 4: 0}
    store = {}

    def step(i, mess):
        j = at[i]
        at[i] += 1
        o = g["ops"][(j if i != 3 else j + 3) % len(g["ops"])]
        what, args = s.inputs(o, j)
        if mess:                                    # the caller reuses its buffers: same array objects, new values
            for q, a in enumerate(args):
                b = store.get((what, q))
                if isinstance(a, np.ndarray) and b is not None and b.shape == a.shape and b.dtype == a.dtype:
                    b[...] = a
                    args[q] = b
                else:
                    store[(what, q)] = a
        inp = what + " " + dig(args)
        ok, exc, v = vt.call(s.call, inst[i], what, args)
        after = what + " " + dig(args)
        out = dig(v) if ok else ""
        rec.emit("Call", name=name, ok=ok, exc=exc, i=i, what=f"{kind}.{what}", inp=inp, out=out, after=after)
        if mess:
            for a in args:
                scribble(a)
            if ok:
                for a in ((v[:2] if kind in DECODERS else v) if isinstance(v, (tuple, list)) else [v]):
                    scribble(a)
        return ok
    for i in g["sch"]:
        if not step(i, i == 2):
            return
    if new(4, kind, False):                          # a late twin on its own
        for _ in g["ops"]:
            if not step(4, False):
                return
    rec.new_trace()


def drive(prop, rec):
    r = rng(prop)
    for k, g in enumerate(rec.gen()):
        one(rec, g, r, k)
