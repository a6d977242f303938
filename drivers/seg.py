"""C04..C08: buffer segmentation, bad parts, buffer structures, field extraction"""
import struct
from array import array
import numpy as np
import vt
from vt import I, ints, rng, DIALECT, SCALAR_IDS, ARRAY_IDS, frame, rand_frame
import protocol_meta as pm
from protocol_meta import dialect_meta as meta
from inference.buffer_segmentation import BufferSegmentation, BufferStructure, MsgParts

SEG = BufferSegmentation(meta.protocol_parser)
SMALL = [i for i in SCALAR_IDS if DIALECT[i]["len"] <= 14]
BIG = [i for i in SCALAR_IDS if DIALECT[i]["len"] >= 30]
PART = {MsgParts.HEADER: 0, MsgParts.PAYLOAD: 1, MsgParts.CHECKSUM: 2, MsgParts.UNKNOWN: 3}


def finite(mid, pl):
    b = bytearray(pl)
    for f in DIALECT[mid]["fields"]:
        if f["t"] == "float":
            b[f["off"] + 3] &= 0xBF
    return bytes(b)


def fin_frame(r, mid, **k):
    pl = finite(mid, bytes(r.randrange(256) for _ in range(DIALECT[mid]["len"])))
    return frame(mid, pl, seq=r.randrange(256), sysid=r.randrange(256), comp=r.randrange(256), **k)


def piece(r, p, fin=False):
    k, a = p["k"], p["a"]
    if k == "frame":
        mid = r.choice(SCALAR_IDS if a % 2 else SMALL)
        return fin_frame(r, mid)
    if k == "array":
        return rand_frame(r, r.choice(ARRAY_IDS))
    if k in ("nested", "overlap"):
        inner = fin_frame(r, r.choice(SMALL))
        mid = r.choice(BIG)
        ln = DIALECT[mid]["len"]
        off = [0, ln - len(inner), r.randrange(ln - len(inner) + 1)][a % 3]
        pl = bytearray(r.randrange(256) for _ in range(ln))
        pl[off:off + len(inner)] = inner
        if k == "nested":
            if fin:
                pl = bytearray(finite(mid, pl))
            return frame(mid, bytes(pl), seq=a)
        if a % 4 == 3:      # the inner frame runs over the end of the outer one
            return (frame(mid, bytes(ln), seq=a)[:-(2 + a % 5)] + inner)
        return frame(mid, bytes(pl), seq=a, crc_xor=1 << a)
    if k == "badcrc":
        mid = r.choice(SMALL)
        f = bytearray(fin_frame(r, mid))
        pos = [0, 1, 5, len(f) - 1, len(f) - 2, r.randrange(len(f))][a % 6]
        f[pos] ^= 1 << r.randrange(8)
        return bytes(f)
    if k == "trunc":
        f = fin_frame(r, r.choice(SCALAR_IDS))
        return f[:max(1, len(f) - [1, 2, 3, 8, r.randrange(1, len(f))][a % 5])]
    if k == "falsehdr":
        mid = r.choice(SCALAR_IDS)
        h = bytes([254, DIALECT[mid]["len"], 0, 0, 0, mid])
        return h + bytes(r.randrange(256) for _ in range(a % 6))
    if k == "stx":
        return bytes([254] * (a + 1))
    n = [0, 1, 2, 7, 8, 9][a % 6] if a < 12 else r.randrange(30)
    return bytes(254 if r.random() < .2 else r.randrange(256) for _ in range(n))


def enc_seg(v):
    parts, valid, st = v
    return dict(parts=[PART[x] for x in parts], valid=ints(valid), starts=[[I(a), I(b)] for a, b in st.items()])


SEG0 = dict(parts=[], valid=[], starts=[])


def kin(r, b):
    """buffers much like b: a bit wrong, two bytes exchanged, b once more"""
    if len(b) < 8:
        return []
    c, d = bytearray(b), bytearray(b)
    c[r.randrange(len(c))] ^= 1 << r.randrange(8)
    i, j = r.randrange(len(d)), r.randrange(len(d))
    d[i], d[j] = d[j], d[i]
    return [bytes(c), bytes(d), bytes(bytearray(b))]


def buffers(rec, r, extra):
    for k, g in enumerate(rec.gen()):
        b = b"".join(piece(r, p) for p in g)
        yield b
        if k % 3 == 0:
            yield from kin(r, b)
        rec.new_trace()
    for mid in SCALAR_IDS:
        f = fin_frame(r, mid)
        yield f
        if extra:
            b = bytearray(f)
            b[r.randrange(len(b))] ^= 1 << r.randrange(8)
            yield bytes(b)
            yield f[:-1]
            yield f + f
    for n in range(0, 10):
        yield bytes(n)
        yield bytes([254] * n)


def c04(rec):
    r = rng("c04")
    for i, b in enumerate(buffers(rec, r, True)):
        c = bytes(b)
        rec.observe("Seg4", lambda: SEG.segment_buffer(b), enc_seg, SEG0, buf=list(c), name=f"trace-{i % 4}")


def c05(rec):
    r = rng("c05")
    for i, b in enumerate(buffers(rec, r, True)):
        rec.observe("Seg5", lambda: SEG.segment_buffer(b), enc_seg, SEG0, buf=list(b), name=f"trace-{i % 4}")
    for mid, m in DIALECT.items():
        f = rand_frame(r, mid)
        rec.observe("Whole", lambda: SEG.segment_buffer(f), enc_seg, SEG0, buf=list(f), id=mid, name="trace-0")


def c06(rec):
    r = rng("c06")
    codes = {v: k for k, v in PART.items()}

    def one(parts):
        buf = bytes(r.randrange(256) for _ in parts)
        arr = np.array([codes[p] for p in parts])

        def f():
            return SEG.bad_buffer_parts(buf, arr), SEG.bad_buffer_idx(buf, arr)

        def enc(v):
            d, ix = v
            return dict(keys=[I(k) for k in d], vals=[list(bytes(x)) for x in d.values()], none=ix is None,
                        idx=[[I(a), I(b)] for a, b in (ix or [])])
        rec.observe("Bad", f, enc, dict(keys=[], vals=[], none=False, idx=[]), buf=list(buf), parts=list(parts))
    import itertools
    for n in range(0, 8 if not vt.THOROUGH else 11):       # every good/bad pattern up to length 7
        for p in itertools.product((3, 1), repeat=n):
            one([x if x == 3 else r.randrange(3) for x in p])
    for _ in range(60):
        one([r.choice([0, 1, 2, 3, 3, 3]) for _ in range(r.randrange(8, 60))])
    for k, b in ((k, x) for k, g in enumerate(rec.gen()) for b in [b"".join(piece(r, p) for p in g)] for x in [b] + (kin(r, b) if k % 3 == 0 else [])):
        def f():
            parts, valid, st = SEG.segment_buffer(b)
            bad = SEG.bad_buffer_parts(b, parts)
            rebuilt, good, i = bytearray(), [], 0
            while i < len(b):
                if i in bad:
                    if len(bad[i]) == 0:
                        break
                    rebuilt += bad[i]
                    i += len(bad[i])
                elif i in st:
                    n = DIALECT[st[i]]["scalar"] + 8
                    good.append(i)
                    rebuilt += b[i:i + n]
                    i += n
                else:
                    break
            return good, sorted(st), bytes(rebuilt)
        rec.observe("Reassemble", f, lambda v: dict(good=ints(v[0]), wantgood=ints(v[1]), rebuilt=list(v[2])),
                    dict(good=[], wantgood=[], rebuilt=[]), buf=list(b))
        rec.new_trace()


def c07(rec):
    r = rng("c07")
    gens = rec.gen()
    small = [[p] for g in gens for p in g if p["k"] == "frame"][:1]
    for num, g in enumerate(gens + small):
        ps = [piece(r, p) for p in g]
        b = b"".join(ps)
        ok, s = rec.observe("Get", lambda: SEG.get_buffer_structure(b),
                            lambda s: dict(starts=[[I(k), I(v)] for k, v in s.structure.items()]), dict(starts=[]), buf=list(b))
        for c in kin(r, b) if num % 3 == 0 else []:
            rec.observe("Get", lambda: SEG.get_buffer_structure(c),
                        lambda s: dict(starts=[[I(k), I(v)] for k, v in s.structure.items()]), dict(starts=[]), buf=list(c))
        if not ok:
            continue
        # a structure from the specification's own point of view: positions and ids of the pieces as assembled
        st, pos = {}, 0
        for p, x in zip(g, ps):
            if p["k"] in ("frame", "badcrc", "falsehdr") and len(x) >= 6:
                st[pos] = x[5]
            pos += len(x)
        o = BufferStructure(dict(st))
        rec.observe("New", lambda: o, lambda s: dict(len=I(len(s)), count=I(s.reception_count)), dict(len=0, count=0),
                    struct=[[k, v] for k, v in st.items()])
        for step in range(6 if num < len(gens) else 140):        # one long reception log
            c = bytearray(b)
            m = r.randrange(7) if num < len(gens) else r.choice([0, 0, 0, 0, 3])
            if m == 1 and st:
                c[r.choice(list(st)) + 5] ^= 1 << r.randrange(8)
            elif m == 2:
                c = c[:r.randrange(len(c) + 1)]
            elif m == 3 and len(c):
                c[r.randrange(len(c))] ^= 255
            elif m == 4:
                c = bytearray(r.randrange(256) for _ in c)
            elif m == 5 and st:
                c = c[:max(st) + r.randrange(8)]
            elif m == 6 and st:
                for k in st:
                    if r.random() < .3:
                        c[k + 5] = r.choice([3, 8, 255, r.choice(list(DIALECT))])
            c = bytes(c)
            if r.random() < .5:
                rec.observe("Adheres", lambda: o.adheres_to_structure(c), lambda v: dict(res=bool(v)), dict(res=False), buf=list(c))
            ok, exc, _ = vt.call(o.register_buffer, c)
            rec.emit("Register", ok=ok, exc=exc, buf=list(c), count=o.reception_count, recv=[list(x) for x in o.received_buffers])
            if r.random() < .5:
                other = dict(st)
                q = r.randrange(4)
                if q == 1 and other:
                    other.pop(r.choice(list(other)))
                elif q == 2:
                    other[r.randrange(200)] = r.choice(list(DIALECT))
                elif q == 3 and other:
                    k = r.choice(list(other))
                    other[k] = (other[k] + 1) % 256
                o2 = BufferStructure(other)
                if other:
                    pass
                rec.observe("Eq", lambda: (o == o2, o == other, o == "x" or o == 3 or o == None), # noqa
                            lambda v: dict(res=bool(v[0]), resdict=bool(v[1]), reso=bool(v[2]), count=I(o.reception_count)),
                            dict(res=False, resdict=False, reso=False, count=0), other=[[k, v] for k, v in other.items()])
        rec.new_trace()


def val_bytes(v, t):
    if t == "char":
        s = v if isinstance(v, bytes) else str(v).encode("latin1")
        return list(s)
    return list(struct.pack(pm.format_strings[t] if False else FMT[t], v))


FMT = {"int8_t": "<b", "uint8_t": "<B", "uint8_t_mavlink_version": "<B", "int16_t": "<h", "uint16_t": "<H", "int32_t": "<i",
       "uint32_t": "<I", "int64_t": "<q", "uint64_t": "<Q", "float": "<f", "double": "<d"}


def c08(rec):
    r = rng("c08")

    def one(b):
        def enc(v):
            fields, desc = v
            return dict(fields=[[k, x[1], val_bytes(x[0], x[1])] for k, x in fields.items()],
                        desc=[dict(h=list(d), n="", t="") if isinstance(d, bytes) else dict(h=[], n=d, t="") if isinstance(d, str)
                              else dict(h=[], n=d[0], t=d[1]) for d in desc])
        rec.observe("Fields", lambda: SEG.get_msg_fields(b), enc, dict(fields=[], desc=[]), buf=list(b))
    for mid in SCALAR_IDS:
        one(fin_frame(r, mid))
        one(fin_frame(r, mid) + bytes(3) + fin_frame(r, mid))
    for k, g in enumerate(rec.gen()):
        b = b"".join(piece(r, p, fin=True) for p in g)
        one(b)
        if k % 3 == 0:
            for c in kin(r, b):
                one(c)
        rec.new_trace()
    for n in (0, 1, 8, 50):
        one(bytes(n))


def drive(prop, rec):
    {"C04": c04, "C05": c05, "C06": c06, "C07": c07, "C08": c08}[prop](rec)
