"""C01, C02, C03: header objects, header validity, nearest header, published metadata"""
import struct
from array import array
import vt
from vt import I, ints, rng, DIALECT, SCALAR_IDS, ARRAY_IDS
import protocol_meta as pm
from protocol_meta import dialect_meta as meta

OBJ0 = dict(buf=[], len=0, seq2=0, sys2=0, comp2=0, id2=0, bits=[], valid=False)


def enc_obj(o):
    return dict(buf=ints(bytes(o.buffer)), len=I(o.length), seq2=I(o.sequence), sys2=I(o.sys_id), comp2=I(o.comp_id),
                id2=I(o.msg_id), bits=ints(list(o.bit_string)), valid=bool(pm.is_valid_header(o.buffer)))


def c01(rec):
    r = rng("c01")
    for g in rec.gen():
        h = bytes(g["h"])
        rec.observe("IsValid", lambda: pm.is_valid_header(h), lambda v: dict(res=bool(v)), dict(res=False), h=list(h))
        rec.observe("From", lambda: pm.FrameHeader.from_buffer(h), enc_obj, OBJ0, h=list(h), force=-1)
        rec.observe("From", lambda: pm.FrameHeader.from_buffer(h, force_msg_id=f), enc_obj, OBJ0, h=list(h),
                    force=(f := r.choice([h[5], r.randrange(256), 256 + r.randrange(3), r.choice(list(DIALECT)), 0])))
        rec.new_trace()
    for stx in [254, 253, 0]:
        for mid in range(256):
            def row():
                out = []
                for ln in range(256):
                    h = bytes([stx, ln, r.randrange(256), r.randrange(256), r.randrange(256), mid])
                    if pm.is_valid_header(h):
                        out.append(ln)
                return out
            rec.observe("Row", row, lambda v: dict(lens=ints(v)), dict(lens=[]), stx=stx, id=mid)
    for n in list(range(0, 12)) + [255]:   # wrong sizes
        mid = r.choice(SCALAR_IDS)
        h = (bytes([254, DIALECT[mid]["len"], 1, 2, 3, mid]) + bytes(300))[:n]
        rec.observe("IsValid", lambda: pm.is_valid_header(h), lambda v: dict(res=bool(v)), dict(res=False), h=list(h))
        rec.observe("From", lambda: pm.FrameHeader.from_buffer(h), enc_obj, OBJ0, h=list(h), force=-1)
        o = pm.FrameHeader(mid, 1, 2, 3)
        rec.observe("Ham", lambda: o.hamming_distance(h), lambda v: dict(dist=I(v)), dict(dist=0), h=list(h), own=list(o.buffer))
    edge = [0, 1, 127, 128, 254, 255, -1, 256, -128, 1000]
    for mid in list(DIALECT) + [3, 8, 51, 255, -1, 256, 300]:
        rec.observe("Make", lambda: pm.FrameHeader(mid, s, c, q), enc_obj, OBJ0, id=mid,
                    sys=(s := r.choice([0, 255, r.randrange(256)])), comp=(c := r.choice([0, 255, r.randrange(256)])),
                    seq=(q := r.choice([0, 255, r.randrange(256)])))
    for a in edge:
        for pos in range(3):
            v = [r.randrange(256) for _ in range(3)]
            v[pos] = a
            mid = r.choice(list(DIALECT))
            rec.observe("Make", lambda: pm.FrameHeader(mid, v[0], v[1], v[2]), enc_obj, OBJ0, id=mid, sys=v[0], comp=v[1], seq=v[2])
    for _ in range(300 if not vt.THOROUGH else 3000):
        o = pm.FrameHeader(r.choice(list(DIALECT)), r.randrange(256), r.randrange(256), r.randrange(256))
        h = bytes(r.randrange(256) for _ in range(6))
        rec.observe("Ham", lambda: o.hamming_distance(h), lambda v: dict(dist=I(v)), dict(dist=0), h=list(h), own=list(o.buffer))


def c02(rec):
    r = rng("c02")

    def one(h, ml):
        if ml < 0:
            f = lambda: pm.hamming_distance_2_valid_header(h)
        else:
            f = lambda: pm.hamming_distance_2_valid_header(h, max_len=ml)
        rec.observe("Dist", f, lambda v: dict(dist=I(v[0]), id=I(v[1])), dict(dist=0, id=0), h=list(h), maxlen=ml)
    for g in rec.gen():
        one(bytes(g["h"]), g["maxlen"])
        rec.new_trace()
    for mid, m in DIALECT.items():       # every perfectly valid header, with bounds below / at its length
        h = bytes([254, m["scalar"], r.randrange(256), r.randrange(256), r.randrange(256), mid])
        one(h, -1)
        one(h, m["scalar"])
        one(h, m["scalar"] - 1)
        h = bytes([254 ^ r.choice([0, 255]), m["scalar"] ^ 255, r.randrange(256), 0, 0, mid ^ 255])   # as far from this message as can be
        one(h, m["scalar"])
        one(h, r.choice([-1, m["scalar"] + 1]))
    for ml in list(range(0, 12)) + [255]:
        for _ in range(6):
            one(bytes(r.randrange(256) for _ in range(6)), ml)
    for n in (0, 1, 5, 7, 8):
        one(bytes(n), -1)
    for _ in range(200 if not vt.THOROUGH else 4000):
        one(bytes(r.randrange(256) for _ in range(6)), r.choice([-1, r.randrange(256)]))


def c03(rec):
    r = rng("c03")
    rec.observe("MetaGlobal", lambda: meta, lambda m: dict(
        ids=ints(m.msg_ids), stx=I(m.stx), hlen=I(m.header_len), clen=I(m.crc_len), over=I(m.protocol_overhead),
        fl=[[str(k), I(v)] for k, v in sorted(m.field_lengths.items())]),
        dict(ids=[], stx=0, hlen=0, clen=0, over=0, fl=[]))
    for mid in DIALECT:
        rec.observe("Meta", lambda: (meta.msgs_payload_length[mid], meta.msgs_fields[mid]),
                    lambda v: dict(len=I(v[0]), names=[str(a) for a, _ in v[1]], types=[str(b) for _, b in v[1]]),
                    dict(len=0, names=[], types=[]), id=mid)
    for t, ln in sorted(pm.field_lengths.items()):
        def fmt():
            f = pm.format_strings[t]
            inv = pm.inv_format_strings[f[1]]
            v = {"char": b"A", "float": 1.5}.get(t, 5)
            le = f[0] == "<" and inv == t and struct.unpack(f, struct.pack(f, v))[0] == v
            return struct.calcsize(f), le
        rec.observe("Fmt", fmt, lambda v: dict(size=I(v[0]), le=bool(v[1])), dict(size=0, le=False), t=t, len=ln)
    for mid, m in DIALECT.items():
        reps = 2 if not vt.THOROUGH else 12
        for k in range(reps):
            pl = bytes(r.randrange(256) for _ in range(m["len"])) if not any(f["t"] == "char" for f in m["fields"]) \
                else bytes(r.randrange(32, 127) for _ in range(m["len"]))
            if any(f["t"] == "float" for f in m["fields"]):   # keep floats finite so that repacking is exact
                b = bytearray(pl)
                for f in m["fields"]:
                    if f["t"] == "float":
                        for q in range(f["off"], f["off"] + f["size"], 4):
                            b[q + 3] &= 0x3F
                pl = bytes(b)
            fr = vt.frame(mid, pl, seq=r.randrange(256), sysid=r.randrange(256), comp=r.randrange(256))

            def parse(x):
                o = meta.protocol_parser(array("B", x))
                return o

            def enc(o):
                return dict(id2=I(o.get_msgId()), payload2=ints(bytes(o.get_payload())))
            D = dict(id2=0, payload2=[])
            rec.observe("Parse", lambda: parse(fr), enc, D, want=True, id=mid, payload=list(pl))
            bit = r.randrange(8, len(fr) * 8)
            bad = bytearray(fr)
            bad[bit // 8] ^= 1 << (bit % 8)
            rec.observe("Parse", lambda: parse(bytes(bad)), enc, D, want=False, id=mid, payload=list(pl))
            rec.observe("Parse", lambda: parse(fr[:-1]), enc, D, want=False, id=mid, payload=list(pl))


def drive(prop, rec):
    {"C01": c01, "C02": c02, "C03": c03}[prop](rec)
