"""C11, C12, C13: buffer models"""
import math, os, struct, tempfile
import numpy as np
import vt
from vt import I, ints, fx, rng, DIALECT, SCALAR_IDS
from inference.statistical_models import BufferModel, FieldModel
from fields import FMT, SIZE

NOCHAR = [i for i in SCALAR_IDS if all(f["t"] in FMT for f in DIALECT[i]["fields"])]
FEW = [i for i in NOCHAR if len(DIALECT[i]["fields"]) <= 7]
U = lambda t: 1 / 32 if t == "float" else 1


def pick_struct(r, k, ids=None):
    """list of (offset, id) and total length"""
    n = [1, 2, 3][k % 3]
    st, pos = [], r.choice([0, 0, 2])
    ids = ids or FEW
    for _ in range(n):
        mid = r.choice(ids) if not st or r.random() < .8 else st[-1][1]
        st.append((pos, mid))
        pos += DIALECT[mid]["len"] + 8 + r.choice([0, 0, 1, 5])
    return st, pos + r.choice([0, 0, 3])


def make_buf(r, st, n, vals):
    b = bytearray(r.randrange(256) for _ in range(n))
    for off, mid in st:
        m = DIALECT[mid]
        b[off:off + 6] = bytes([254, m["scalar"], vals("h", "seq") % 256, vals("h", "sys") % 256, vals("h", "comp") % 256, mid])
        for f in m["fields"]:
            v = vals(f["t"], (mid, f["n"]))
            b[off + 6 + f["off"]: off + 6 + f["off"] + f["size"]] = struct.pack(FMT[f["t"]], v if not isinstance(v, float) or f["t"] == "float" else int(v))
    return bytes(b)


def valuer(r, a, base):
    """a field's value: a stable per-field base, varied depending on the pattern a"""
    def f(t, key):
        if key not in base:
            base[key] = r.randrange(0, 40)
        k = base[key]
        if a % 3 == 1:
            k = k + r.randrange(0, 3)
        elif a % 3 == 2 and r.random() < .5:
            k = r.randrange(0, 100)
        if t == "h":
            return k
        if t == "float":
            if a == 8 and r.random() < .3:
                return r.choice([float("nan"), float("inf")])
            return (k - 20) / 32 * (1 if a % 2 else 3)
        if t[0] == "u":
            return k
        return k - 20
    return f


def sample_enc(v, t):
    if not math.isfinite(v):
        return dict(v=0, fin=False)
    return dict(v=I(v / U(t)), fin=True)


def enc_sat(v, t):
    if isinstance(v, float) and not math.isfinite(v):
        return dict(v=0, fin=False)
    x = v / U(t)
    B = 1048576
    if abs(x) >= B:
        return dict(v=B if x > 0 else -B, fin=True)
    return dict(v=int(x), fin=True)


def c11(rec):
    r = rng("c11")
    for k, mid in enumerate(SCALAR_IDS):
        for rep in range(1 if not vt.THOROUGH else 4):
            st, n = ([(r.choice([0, 3]), mid)], 3 + DIALECT[mid]["len"] + 8) if k % 2 or rep else pick_struct(r, k, [mid] + FEW)
            one11(rec, r, st, n)
    for k in range(120 if not vt.THOROUGH else 1500):
        one11(rec, r, *pick_struct(r, k))


def one11(rec, r, st, n):
    d = {a: b for a, b in st}
    S = [[a, b] for a, b in st]
    rec.observe("Unpack", lambda: BufferModel.unpack_structure(True, n, d),
                lambda v: dict(map=ints(v[0]), names=[str(x) for x in v[1]], types=[str(x) for x in v[2]]),
                dict(map=[], names=[], types=[]), struct=S, len=n)
    if all(m in NOCHAR for _, m in st):
        types = [t for _, m in st for t in ["uint8_t"] * 6 + [f["t"] for f in DIALECT[m]["fields"]]]
        for noisy in (False, True):
            b = make_buf(r, st, n, valuer(r, r.randrange(9), {}))
            if noisy:
                b = bytearray(b)
                for _ in range(4):
                    b[r.randrange(n)] ^= 1 << r.randrange(8)
                for off, mid in st:     # keep floats away from denormal scale
                    for f in DIALECT[mid]["fields"]:
                        if f["t"] == "float":
                            o = off + 6 + f["off"]
                            x = struct.unpack("<f", bytes(b[o:o + 4]))[0]
                            if math.isfinite(x) and (x * 32 != int(x * 32)):
                                b[o:o + 4] = struct.pack("<f", 1.0)
                b = bytes(b)
            bits = np.unpackbits(np.frombuffer(b, dtype=np.uint8)).astype(np.int_)
            for src in (b, bits):
                rec.observe("Values", lambda: BufferModel.unpack_values(src, d), lambda v: dict(vals=[enc_sat(x, t) for x, t in zip(v, types, strict=True)]),
                            dict(vals=[]), struct=S, buf=list(b))
    m = BufferModel()
    errs = sorted(r.sample(range(n * 8 + 16), r.choice([0, 1, 3, 9])))
    order = list(errs)
    r.shuffle(order)
    rec.observe("Damaged", lambda: m.find_damaged_fields(np.array(order, dtype=np.int_), d, n),
                lambda v: dict(res=[[str(a), I(b)] for a, b in v]), dict(res=[]), struct=S, len=n, errs=errs)
    rec.new_trace()


def stats_event(rec, m, types):
    def enc(_):
        fs = []
        for name in m.fields_names():
            f = m.get_field_model(name)
            assert f is m[name] and name in m
            fs.append(dict(n=name, t=f.field_type, size=I(f.model_size), m=fx(f.mean / U(f.field_type), 1000), d=fx(f.std / U(f.field_type), 100),
                           w=0 if f.window_size is None else I(f.window_size)))
        return dict(fs=fs, nf=I(len(m)), size=I(m.model_size), w=0 if m.window_size is None else I(m.window_size))
    rec.observe("Stats", lambda: 0, enc, dict(fs=[], nf=0, size=0, w=0))


def enc_desc(d):
    if d is None:
        return ["none"]
    out = []
    for x in d:
        if isinstance(x, (bytes, bytearray)):
            out.append("h:" + bytes(x).hex())
        elif isinstance(x, str):
            out.append("s:" + x)
        else:
            a, b = x
            out.append(f"f:{a}:{b}")
    return out


SMALL = [i for i in NOCHAR if len(DIALECT[i]["fields"]) <= 3]


def long(rec, prop, r, tmp):
    """long histories of one message: most operations learn, of values small enough for the specification's sums of squares"""
    ops = [o for g in rec.gen() for o in g["ops"]]
    for w, steps in ((0, 290), (130, 170)):
        mine = []
        for i in range(steps):
            o = dict(ops[i % len(ops)])
            if i % 12 or o["op"] in ("own", "reload"):
                o["op"] = "add"
            if i % 97 == 96:
                o["op"] = "reload"
            o["a"] = [0, 1, 3, 4][o["a"] % 4] if o["op"] == "add" else o["a"] % 2
            mine.append(o)
        run(rec, prop, dict(cfg=dict(w=w, s=r.choice([0, 3])), ops=mine + [dict(op="predict", a=1), dict(op="bitmean", a=0)]), r, tmp, SMALL)


def run(rec, prop, g, r, tmp, ids=None):
    w = g["cfg"]["w"]
    st, n = pick_struct(r, g["cfg"]["s"], ids)
    d = {a: b for a, b in st}
    S = [[a, b] for a, b in st]
    other, _ = pick_struct(r, 0)          # a structure the model may not know
    base = {}
    ok, m = rec.observe("NewM", lambda: BufferModel(window_size=w or None), lambda m: dict(size=I(m.model_size), nf=I(len(m))), dict(size=0, nf=0), w=w)
    if not ok:
        return
    desc = None
    if prop == "C12" and g["cfg"]["s"] % 4:
        desc = []
        for off, mid in st:
            desc.append(bytes([254, DIALECT[mid]["scalar"], r.randrange(256), 1, 2, mid]))
            desc += [(DIALECT[mid]["name"] + "_" + f["n"], f["t"]) for f in DIALECT[mid]["fields"]]
            desc.append("crc")
        m.set_buffer_description(list(desc))
    clean = True
    total = 0
    for o in g["ops"]:
        op, a = o["op"], o["a"]
        if op == "add":
            aa = a if not (a == 8 and total == 0) else 0
            if aa == 8 and w and w < 3:
                aa = 7
            b = make_buf(r, st, n, valuer(r, aa, base))
            src = b if a % 2 else np.unpackbits(np.frombuffer(b, dtype=np.uint8)).astype(np.int_)
            rec.observe("AddBuf", lambda: m.add_buffer(src, d), lambda _: dict(size=I(m.model_size)), dict(size=0), struct=S, buf=list(b))
            total += 1
        elif op in ("own", "sample"):        # a field model of the caller's own / samples of one field
            rows = [(DIALECT[mm]["name"] + "_" + f["n"], f["t"]) for _, mm in st for f in DIALECT[mm]["fields"]] + [("seq", "uint8_t"), ("extra", "int16_t"), ("extra_f", "float")]
            name, t = r.choice(rows)
            xs = [valuer(r, a, base)(t, name) for _ in range(r.choice([1, 1, 2, 4]))]
            arg = xs if len(xs) > 1 or a % 2 else xs[0]
            E = [sample_enc(x, t) for x in xs]
            if op == "own":
                fw = r.choice([0, 5] if t == "float" else [0, 1, 2, 3, 5])

                def own():
                    m[name] = FieldModel(name, t, fw or None)
                    m[name].add_sample(arg)
                rec.observe("Own", own, lambda _: dict(size=I(m.model_size)), dict(size=0), n=name, t=t, w=fw, xs=E)
            else:
                rec.observe("Sample", lambda: m.add_sample(name, arg, t), lambda _: dict(size=I(m.model_size)), dict(size=0), n=name, t=t, xs=E)
        elif op == "stats":
            stats_event(rec, m, None)
        elif op == "predict" and prop != "C12" or op == "predict" and total:
            s2, n2 = (st, n) if a < 4 else (other, 400)
            b = make_buf(r, s2, n if s2 is st else 90, valuer(r, a, base))
            src = b if a % 2 else np.unpackbits(np.frombuffer(b, dtype=np.uint8)).astype(np.int_)
            dd = {x: y for x, y in s2}
            types = [t for _, mm in s2 for t in ["uint8_t"] * 6 + [f["t"] for f in DIALECT[mm]["fields"]]]

            def enc(v):
                vf, vb, sb = v
                # one unit per field type, so that bit values can be compared with field values
                bit_t = {}
                for off, mm in s2:
                    for q in range(48):
                        bit_t[off * 8 + q] = 1
                    for f in DIALECT[mm]["fields"]:
                        for q in range(f["size"] * 8):
                            bit_t[(off + 6 + f["off"]) * 8 + q] = U(f["t"])
                return dict(res=[dict(known=False, n="", p=-1, d=-1) if x is None else
                                 dict(known=True, n=str(x[0]), p=fx(x[1], 1000000), d=fx(x[2] / U(types[i]), 100)) for i, x in enumerate(vf)],
                            bitp=[-1 if math.isnan(x) else fx(x, 1000000) for x in vb],
                            bitd=[-1 if math.isnan(x) else fx(x / bit_t.get(i, 1), 100) for i, x in enumerate(sb)])
            rec.observe("Predict", lambda: m.predict(src, dd), enc, dict(res=[], bitp=[], bitd=[]),
                        struct=[[x, y] for x, y in s2], buf=list(b))
        elif op == "bitmean":
            nb = n * 8
            idx = list(range(nb)) if a == 0 else sorted(r.sample(range(nb), 20)) if a == 1 else r.sample(range(nb), 20)
            rec.observe("BitMean", lambda: m.bitwise_model_mean(np.array(idx, dtype=np.int_), n, d), lambda v: dict(bits=ints(v)), dict(bits=[]),
                        struct=S, len=n, idx=idx)
        elif op == "reload" and prop == "C12":
            p = os.path.join(tmp, "model.json")
            before, ord0 = enc_desc(m.get_buffer_description()), list(m.ordered_field_names or [])

            def f():
                m.save(p)
                x = BufferModel.load(p)
                os.unlink(p)
                return x
            ok, m2 = rec.observe("Reload", f, lambda x: dict(desc=enc_desc(x.get_buffer_description()), ord=[str(q) for q in (x.ordered_field_names or [])]),
                                 dict(desc=[], ord=[]), desc0=before, ord0=ord0, hasdesc=desc is not None,
                                 wantord=[q[0] for q in (desc or []) if isinstance(q, tuple)])
            if not ok:
                return
            m = m2
            stats_event(rec, m, None)
    stats_event(rec, m, None)
    rec.new_trace()


def still(rec, r, tmp=None, rounds=16):
    """fields at rest anywhere in their range: judged on the bytes themselves"""
    ids = [i for i in NOCHAR if any(f["size"] == 8 for f in DIALECT[i]["fields"])]
    for k in range(rounds):
        st, n = pick_struct(r, k, ids if k % 4 else None)
        d, S = {a: b for a, b in st}, [[a, b] for a, b in st]

        def make(like=None):
            b = bytearray(like or (r.randrange(256) for _ in range(n)))
            for off, mid in st:
                for f in DIALECT[mid]["fields"]:
                    o, z = off + 6 + f["off"], f["size"]
                    if like is None:
                        x = r.choice([bytes([255] * z), bytes([255] * (z - 1) + [127]), bytes([0] * (z - 1) + [128]), None, None, None])
                        b[o:o + z] = x or bytes(r.randrange(256) for _ in range(z))
                    elif r.random() < .4:
                        b[o + r.choice([0, 0, z - 1, r.randrange(z)])] ^= 1 << r.randrange(8)
                    if f["t"] == "float":       # finite, normal
                        b[o + 3] = (b[o + 3] & 0x9f) | 0x20
            return bytes(b)
        buf = make()
        ok, m = rec.observe("NewS", lambda: BufferModel(window_size=[None, 30, 5][k % 3]), lambda m: {}, {})
        if not ok:
            continue
        for i in range(r.choice([1, 7, 20, 50])):
            rec.observe("AddS", lambda: m.add_buffer(buf, d), lambda _: {}, {}, struct=S, buf=list(buf))
        if tmp:
            p = os.path.join(tmp, "still.json")

            def again():
                m.save(p)
                x = BufferModel.load(p)
                os.unlink(p)
                return x
            ok, m = rec.observe("ReloadS", again, lambda x: {}, {})
            if not ok:
                continue
        for i in range(3):
            b = make(buf) if i else buf
            src = b if i % 2 else np.unpackbits(np.frombuffer(b, dtype=np.uint8)).astype(np.int_)
            rec.observe("PredictS", lambda: m.predict(src, d), lambda v: dict(p=[fx(x[1], 1000000) for x in v[0]], still=[bool(x[2] == 0) for x in v[0]],
                        bitp=[-1 if math.isnan(x) else fx(x, 1000000) for x in v[1]], bitstill=[bool(x == 0) for x in v[2]]),
                        dict(p=[], still=[], bitp=[], bitstill=[]), struct=S, buf=list(b))
        idx = r.sample(range(n * 8), n * 8)
        rec.observe("BitMeanS", lambda: m.bitwise_model_mean(np.array(idx, dtype=np.int_), n, d), lambda v: dict(bits=ints(v)), dict(bits=[]),
                    struct=S, len=n, idx=idx)
        rec.new_trace()


def c12(rec):
    r = rng("c12")
    with tempfile.TemporaryDirectory(dir=rec.work) as tmp:
        for g in rec.gen():
            if not any(o["op"] == "reload" for o in g["ops"]):
                g["ops"].insert(6, dict(op="reload", a=0))
            run(rec, "C12", g, r, tmp)
        long(rec, "C12", r, tmp)
        still(rec, r, tmp)


def c13(rec):
    r = rng("c13")
    for g in rec.gen():
        run(rec, "C13", g, r, None)
    long(rec, "C13", r, None)
    still(rec, r)


def drive(prop, rec):
    {"C11": c11, "C12": c12, "C13": c13}[prop](rec)
