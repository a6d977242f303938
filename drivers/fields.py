"""C09, C10: field models"""
import math, struct
from fractions import Fraction
import numpy as np
import vt
from vt import I, ints, fx, rng
from inference.statistical_models import FieldModel, num2bits

TYPES = ["uint8_t", "int8_t", "uint16_t", "int16_t", "uint32_t", "int32_t", "uint64_t", "int64_t", "float", "float"]
SIZE = {"uint8_t": 1, "int8_t": 1, "uint16_t": 2, "int16_t": 2, "uint32_t": 4, "int32_t": 4, "uint64_t": 8, "int64_t": 8, "float": 4, "char": 1}
UNIT = {"uint32_t": 2 ** 20, "int32_t": 2 ** 20, "uint64_t": 2 ** 40, "int64_t": 2 ** 40, "float": 2.0 ** -5}
FMT = {"uint8_t": "<B", "int8_t": "<b", "uint16_t": "<H", "int16_t": "<h", "uint32_t": "<I", "int32_t": "<i", "uint64_t": "<Q", "int64_t": "<q", "float": "<f"}


# (origin, unit): the sessions run anywhere in the range of the type, also where doubles no longer hold every integer
PLACES = {"uint16_t": [(65000, 1), (32768, 1)], "int16_t": [(-32600, 1), (32600, 1)],
          "uint32_t": [(2 ** 32 - 200, 1), (2 ** 31, 1), (16777217, 1)], "int32_t": [(-2 ** 31 + 200, 1), (2 ** 31 - 200, 1), (16777217, 1)],
          "uint64_t": [(2 ** 64 - 1 - 50 * 2 ** 30, 2 ** 30), (2 ** 63 + 1, 2 ** 30), (2 ** 53 + 1, 2 ** 30), (2 ** 51 + 3, 2 ** 14), (2 ** 64 - 1 - 50 * 2 ** 40, 2 ** 40)],
          "int64_t": [(-2 ** 63 + 50 * 2 ** 30, 2 ** 30), (2 ** 63 - 1 - 50 * 2 ** 30, 2 ** 30), (-2 ** 53 - 1, 2 ** 30), (2 ** 51 + 3, 2 ** 14)],
          "float": [(2.0 ** 17, 2.0 ** -5), (-1000.0, 2.0 ** -5), (struct.unpack("<f", struct.pack("<f", .1))[0], 2.0 ** -5)]}


def new(rec, t, w):
    unsigned = t.startswith("u") or t == "char"
    ok, m = rec.observe("NewF", lambda: FieldModel("F", t, w or None) if w else FieldModel("F", t),
                        lambda m: dict(size=I(m.model_size), flen=I(m.field_len), signed=bool(m.signed), inttype=bool(m.int_type)),
                        dict(size=0, flen=0, signed=False, inttype=False), t=t, w=w, wantlen=SIZE[t], wantsigned=not unsigned, wantint=t != "float")
    return m


def back(x):
    if x.denominator != 1:
        raise vt.BadValue(f"not a sample: {x}")
    return int(x)


def run(rec, prop, g, at):
    w, t = g["cfg"]["w"], TYPES[g["cfg"]["t"]]
    u = UNIT.get(t, 1)
    isf = t == "float"
    neg = not t.startswith("u")
    org = 0
    if t in PLACES and at.random() < .6:
        org, u = at.choice(PLACES[t])
        if "64" in t and at.random() < .5:
            org, u = at.randrange(2 ** 37 - (2 ** 63 if neg else 0), 2 ** (63 if neg else 64) - 2 ** 37), 2 ** 30
    lift = 0 if neg or org else 50
    val = lambda k: org + (k + lift) * u
    enc = lambda k: k + lift
    rel = lambda x: (Fraction(x if isinstance(x, int) else float(x)) - Fraction(org)) / Fraction(u) if math.isfinite(x) else x
    m = new(rec, t, w)
    if m is None:
        return
    nfin, tail = 0, []       # keep at least one finite sample in the window once non-finite ones are used

    def add(vs, aslist):
        real = [float("nan") if v == "nan" else float("inf") if v == "inf" else val(v) for v in vs]
        rec.observe("Add", lambda: m.add_sample(list(real) if aslist else real[0]), lambda _: dict(size=I(m.model_size)), dict(size=0),
                    vs=[dict(v=0, fin=False) if isinstance(v, str) else dict(v=enc(v), fin=True) for v in vs])
        tail.extend(vs)
    ops = list(g["ops"])
    if at.random() < .5:        # the field comes to rest
        v = at.choice([-50, 50, 50, 31, 5])
        ops += [dict(op="add", v=v)] * at.choice([7, 7, 19] if w else [0, 1]) + [dict(op=q, v=v) for q in ("mean", "std", "classify")]
    if not w and at.random() < .3:      # or never moves
        ops = [dict(o, op="add", v=v, u=v) if o["op"] in ("add", "list") else o for v in [at.choice([-50, 50, 31])] for o in ops + [dict(op="add")] * at.choice([0, 6, 16])
               + [dict(op=q, v=v) for q in ("mean", "std", "classify")]]
    for o in ops:
        op, v = o["op"], o["v"]
        win = tail[-w:] if w else tail
        if op == "add":
            add([v], False)
        elif op == "list":
            add([v, o["u"]], True)
        elif op in ("nan", "inf"):
            nxt = (tail + [op])[-w:] if w else tail + [op]
            if isf and any(not isinstance(x, str) for x in nxt):
                add([op], False)
        else:
            if tail and all(isinstance(x, str) for x in win) or org and not tail:
                continue
            fin = [x for x in win if not isinstance(x, str)]
            if op == "mean" and prop == "C09":
                rec.observe("Mean", lambda: m.mean, lambda x: dict(m=fx(rel(x), 1000)), dict(m=0))
            elif op == "std" and prop == "C09":
                rec.observe("Std", lambda: m.std, lambda x: dict(d=fx(x / u, 100), zero=bool(x == 0)), dict(d=0, zero=False))
            elif op == "classify" and prop == "C10":
                for x in [v if not org or abs(v) <= 50 else v // 2] + ([fin[0]] if fin else []):
                    rec.observe("Classify", lambda: m.classify_value(val(x)), lambda r: dict(p=fx(r[0], 1000000), d=fx(r[1] / u, 100), zero=bool(r[1] == 0)),
                                dict(p=-1, d=-1, zero=False), x=dict(v=enc(x), fin=True))
                if isf:
                    for bad in (float("nan"), float("inf"), float("-inf")):
                        rec.observe("Classify", lambda: m.classify_value(bad), lambda r: dict(p=fx(r[0], 1000000), d=fx(r[1] / u, 100), zero=bool(r[1] == 0)),
                                    dict(p=-1, d=-1, zero=False), x=dict(v=0, fin=False))
            elif op == "cdf" and prop == "C10" and len(set(fin)) > 1:
                rec.observe("Cdf", lambda: m.cdf(val(v)), lambda r: dict(p=fx(r, 1000000)), dict(p=-1), x=enc(v))
            elif op == "pdf" and prop == "C10" and len(set(fin)) > 1:
                sd = float(np.std([val(q) for q in fin]))
                rec.observe("Pdf", lambda: m.pdf(val(v)), lambda r: dict(p=fx(r * sd, 1000000)), dict(p=-1), x=enc(v))
    if prop == "C09" and tail:
        rec.observe("Samples", lambda: m.samples, lambda s: dict(xs=[
            dict(v=0, fin=False) if not math.isfinite(x) else dict(v=back(rel(x)), fin=True) for x in s]), dict(xs=[]))
        if u != 1 or org:
            want = list(struct.pack(FMT[t], val([x for x in tail if not isinstance(x, str)][-1])))
            rec.observe("BitMeanAt", lambda: m.bitwise_mean(), lambda b: dict(bits=ints(b), m=fx(rel(struct.unpack(FMT[t], np.packbits(b).tobytes())[0]), 1000)),
                        dict(bits=[], m=0), want=want, t=t)
        else:
            rec.observe("BitMean", lambda: m.bitwise_mean(), lambda b: dict(bits=ints(b)), dict(bits=[]), t=t, uns=not neg, size=SIZE[t])
    rec.new_trace()


def long(rec, prop, at):
    """long histories: unbounded and wide windows, queried now and then"""
    ops = [o for g in rec.gen() for o in g["ops"]]
    for j, (w, t) in enumerate([(0, 0), (130, 3), (0, 8), (260, 4), (300, 1), (0, 7)]):
        mine = [o for i, o in enumerate(ops[j::6]) if i % 5 == 0 or o["op"] in ("add", "list")][:330]
        run(rec, prop, dict(cfg=dict(w=w, t=t), ops=mine + [dict(op=q, v=v) for q in ("mean", "std", "classify", "cdf", "pdf") for v in (5, 13)]), at)


def still(rec, prop, at):
    """fields that never move, among them large 64 bit values"""
    for j in range(24):
        v = at.choice([-50, 31, 50])
        q = [dict(op=o, v=x) for o in ("mean", "std", "classify") for x in (v, v - 1)]
        run(rec, prop, dict(cfg=dict(w=at.choice([0, 0, 17, 40]), t=[6, 7, 6, 7, 8, 4][j % 6]), ops=(([dict(op="add", v=v)] * at.randrange(1, 9)) + q) * 5), at)


def c09(rec):
    r = rng("c09")
    at = rng("at")
    for g in rec.gen():
        run(rec, "C09", g, at)
    long(rec, "C09", at)
    still(rec, "C09", at)
    for t in ["double", "string", "", "uint8", "char[10]"]:
        rec.observe("BadType", lambda: FieldModel("F", t), lambda m: {}, {})
    for t in FMT:
        sz = SIZE[t]
        for _ in range(12 if not vt.THOROUGH else 200):
            b = bytes(r.randrange(256) for _ in range(sz))
            v = struct.unpack(FMT[t], b)[0]
            if t == "float":
                if not math.isfinite(v):
                    continue
            rec.observe("Bits", lambda: num2bits(v, t), lambda x: dict(bits=ints(x)), dict(bits=[]), want=list(b), t=t)
        if t != "float":
            hi = min(2 ** (8 * sz - (0 if t[0] == "u" else 1)) - 1, 2 ** 30)
            for v in {0, 1, 2, hi, hi - 1, hi // 2, -1, -2, -100, -hi}:
                if v < 0 and t[0] != "u" and -v > hi:
                    continue
                rec.observe("BitsInt", lambda: num2bits(v, t), lambda x: dict(bits=ints(x)), dict(bits=[]), v=v, uns=t[0] == "u", size=sz, t=t)
                for d in (.25, -.25, .4, -.4):
                    if t[0] == "u" and v + d < -.5 or 0 <= v + d:
                        rec.observe("BitsInt", lambda: num2bits(v + d, t), lambda x: dict(bits=ints(x)), dict(bits=[]), v=v, uns=t[0] == "u", size=sz, t=t)
    for ch in "Az 0~":
        rec.observe("Bits", lambda: num2bits(ch, "char"), lambda x: dict(bits=ints(x)), dict(bits=[]), want=[ord(ch)], t="char")


def c10(rec):
    at = rng("at")
    for g in rec.gen():
        run(rec, "C10", g, at)
    long(rec, "C10", at)
    still(rec, "C10", at)


def drive(prop, rec):
    {"C09": c09, "C10": c10}[prop](rec)
