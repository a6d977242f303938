"""C37, C38: the dialect's codec (pack / send / decode) and its byte-stream parser"""
import hashlib
import importlib
import json
import os
import struct
from array import array
import vt
from vt import I, ints, rng

# the dialect under test: its generated module, its table (from the xml) and the trace file its events go to
TABLE = dict(hc=("mavlink_utils.HC_dialect", "dialect.json", "trace"), min=("mavlink_utils.minimal_dialect", "dialect_min.json", "trace-min"))
hc = DIALECT = ARRAYS = None


class Rec:
    """a recorder which writes to the trace file of one dialect"""
    def __init__(self, rec, name):
        self.rec, self.name, self.gen, self.new_trace = rec, name, rec.gen, rec.new_trace

    def emit(self, *a, **k):
        return self.rec.emit(*a, name=self.name, **k)

    def observe(self, *a, **k):
        return self.rec.observe(*a, name=self.name, **k)


def use(rec, which):
    global hc, DIALECT, ARRAYS
    mod, table, name = TABLE[which]
    hc = importlib.import_module(mod)
    DIALECT = {m["id"]: m for m in json.load(open(os.path.join(vt.SPECDIR, table)))}
    ARRAYS = [i for i, m in DIALECT.items() if m["len"] != m["scalar"]] or list(DIALECT)
    return Rec(rec, name)


def frame(*a, **k):
    return vt.frame(*a, table=DIALECT, **k)


FMT = {"char": "c", "uint8_t": "B", "int8_t": "b", "uint16_t": "H", "int16_t": "h", "uint32_t": "I", "int32_t": "i",
       "uint64_t": "Q", "int64_t": "q", "float": "f", "double": "d"}
SIZE = {t: struct.calcsize("<" + f) for t, f in FMT.items()}


def decl(m):
    return sorted(m["fields"], key=lambda f: f["d"])


def number(r, t, a):
    n = 8 * SIZE[t]
    if t in ("float", "double"):
        return [0.0, 1.5, -2.25, float(r.randrange(-8000, 8000)) / 16, 3.0e38, -1.17549435e-38, float("inf"), r.random()][a % 8]
    lo, hi = (0, 2 ** n - 1) if t[0] == "u" else (-2 ** (n - 1), 2 ** (n - 1) - 1)
    return [0, hi, lo, r.randint(lo, hi), r.randint(lo, hi), min(hi, 1 << r.randrange(n - 1)), hi - r.randrange(3), r.randint(lo, hi)][a % 8]


def values(r, m, a):
    """python values in declaration order and their wire bytes"""
    vals, wire = [], []
    for f in decl(m):
        aa = a if a < 8 else r.randrange(8)
        if f["t"] == "char":
            n = f["size"]
            ln = [n, 0, n - 1, max(n // 2, 1)][aa % 4] if f["a"] else 1
            s = bytes(r.randrange(33, 127) for _ in range(ln))
            vals.append(s)
            wire.append(list(s))
        elif f["a"]:
            v = [number(r, f["t"], r.randrange(8) if a >= 3 else aa) for _ in range(f["a"])]
            vals.append(v)
            wire.append(list(b"".join(struct.pack("<" + FMT[f["t"]], x) for x in v)))
        else:
            v = number(r, f["t"], aa)
            vals.append(v)
            wire.append(list(struct.pack("<" + FMT[f["t"]], v)))
    return vals, wire


def enc_val(f, v):
    if f["t"] == "char":
        if not isinstance(v, str):
            raise vt.BadValue(f"string expected, got {v!r}")
        return list(v.encode("latin-1"))
    xs = list(v) if f["a"] else [v]
    if f["a"] and len(xs) != f["a"]:
        raise vt.BadValue("array length")
    if f["t"] not in ("float", "double") and not all(isinstance(x, int) for x in xs):
        raise vt.BadValue("integer expected")
    return list(b"".join(struct.pack("<" + FMT[f["t"]], x) for x in xs))


O0 = dict(k="", id=0, name="", seq=0, sys=0, comp=0, names=[], vals=[], dict=[], buf=[], payload=[], crc=0, hdr=[], js=True)


def enc_msg(o):
    if o is None:
        raise vt.BadValue("no message")
    buf = ints(bytes(o.get_msgbuf()))
    if o.get_type() == "BAD_DATA":
        if bytes(o.data) != bytes(o.get_msgbuf()):
            raise vt.BadValue("bad data differs from its buffer")
        return dict(O0, k="bad", buf=buf)
    m = DIALECT[o.get_msgId()]
    d, h = o.to_dict(), o.get_header()
    if d.get("mavpackettype") != o.get_type() or set(d) != set(o.get_fieldnames()) | {"mavpackettype"}:
        raise vt.BadValue("to_dict keys")
    return dict(k="msg", id=I(o.get_msgId()), name=str(o.get_type()), seq=I(o.get_seq()), sys=I(o.get_srcSystem()), comp=I(o.get_srcComponent()),
                names=[str(x) for x in o.get_fieldnames()], vals=[enc_val(f, getattr(o, f["n"])) for f in decl(m)],
                dict=[enc_val(f, d[f["n"]]) for f in decl(m)], buf=buf, payload=ints(bytes(o.get_payload())), crc=I(o.get_crc()),
                hdr=[I(h.mlen), I(h.incompat_flags), I(h.compat_flags)],
                js=str(o) == o.get_type() + " {" + ", ".join(f"{k} : {d[k]}" for k in o.get_fieldnames()) + "}" and repr(json.loads(o.to_json())) == repr({k: list(v) if isinstance(v, (tuple, list)) else v for k, v in d.items()}))


class Sink:
    def __init__(self):
        self.data, self.broken = bytearray(), False

    def write(self, b):
        if self.broken:
            raise OSError("link down")
        self.data += b

    def take(self):
        d, self.data = list(self.data), bytearray()
        return d


class Sender:
    def __init__(self, rec, seq, sysid, comp):
        self.rec, self.sink, self.cbs = rec, Sink(), []
        self.mav = hc.MAVLink(self.sink, **{k: v for k, v in (("srcSystem", sysid), ("srcComponent", comp)) if v})
        if seq:                        # a new sender starts at 0
            self.mav.seq = seq
        self.heard = (seq + sysid) % 4 != 0
        if self.heard:
            self.mav.set_send_callback(lambda m, *a, **k: self.cbs.append((m, a, k)), 7, x=8)
        rec.emit("Sender", ok=True, exc="", seq=seq, sys=sysid, comp=comp)

    def cb(self):
        n = sum(1 for m, a, k in self.cbs if a == (7,) and k == {"x": 8})
        self.cbs.clear()
        return n if self.heard else -1

    def state(self):
        return dict(seq=I(self.mav.seq), pk=I(self.mav.total_packets_sent), by=I(self.mav.total_bytes_sent))

    def build(self, mid, vals, manner):
        m = DIALECT[mid]
        low = m["name"].lower()
        names = [f["n"] for f in decl(m)]
        if manner % 3 == 0:
            return getattr(self.mav, low + "_encode")(*vals)
        if manner % 3 == 1:
            return getattr(self.mav, low + "_encode")(**dict(zip(names, vals)))
        return hc.mavlink_map[mid](*vals)

    def send(self, mid, vals, wire, manner):
        m = DIALECT[mid]

        def go():
            if manner % 2:
                self.mav.send(self.build(mid, vals, manner // 2))
            else:
                names = [f["n"] for f in decl(m)]
                f = getattr(self.mav, m["name"].lower() + "_send")
                f(*vals) if manner % 4 else f(**dict(zip(names, vals)))
        self.sink.take()
        self.rec.observe("Send", go, lambda _: dict(out=self.sink.take(), cb=self.cb(), **self.state()),
                         dict(out=[], cb=0, seq=0, pk=0, by=0), id=mid, vals=wire)

    def pack(self, mid, vals, wire, manner):
        def go():
            o = self.build(mid, vals, manner)
            return o, o.pack(self.mav)
        self.sink.take()
        ok, v = self.rec.observe("Pack", go, lambda v: dict(
            packed=ints(bytes(v[1])), out=self.sink.take(), hdr=[I(v[0].get_msgId()), I(v[0].get_seq()), I(v[0].get_srcSystem()), I(v[0].get_srcComponent())],
            payload=ints(bytes(v[0].get_payload())), buf=ints(bytes(v[0].get_msgbuf())), crc=I(v[0].get_crc()), **self.state()),
            dict(packed=[], out=[], hdr=[], payload=[], buf=[], crc=0, seq=0, pk=0, by=0), id=mid, vals=wire)
        return v if ok else None

    def resend(self, o, mid, wire):
        self.sink.take()
        self.rec.observe("Send", lambda: self.mav.send(o), lambda _: dict(out=self.sink.take(), cb=self.cb(), **self.state()),
                         dict(out=[], cb=0, seq=0, pk=0, by=0), id=mid, vals=wire)

    def refuse(self, mid, vals):
        self.sink.take()
        ok, exc, _ = vt.call(lambda: self.mav.send(self.build(mid, vals, 0)))
        self.rec.emit("Refuse", ok=ok, exc=exc, id=mid, out=self.sink.take(), cb=self.cb(), **self.state())

    def lost(self, mid, vals, manner):
        """a send while the link is down: the writer raises"""
        self.sink.broken = True
        ok, exc, _ = vt.call(lambda: self.mav.send(self.build(mid, vals, manner)))
        self.sink.broken = False
        self.rec.emit("Lost", ok=ok, exc=exc, id=mid, out=self.sink.take(), cb=self.cb(), **self.state())


def values_of(r):
    mid = r.choice(list(DIALECT))
    return (mid, *values(r, DIALECT[mid], 9))


def decode(rec, f):
    mav = hc.MAVLink(None)
    ok, v = rec.observe("Decode", lambda: mav.decode(array("B", f)), lambda o: dict(o=enc_msg(o)), dict(o=O0), f=list(f))
    return v if ok else None


def v2frame(mid, payload, r, flags=0, sign=False, crc_xor=0, idhi=0):
    m = DIALECT.get(mid, {"crc": 0})
    fl = flags | (1 if sign else 0)
    body = bytes([len(payload), fl, r.randrange(256), r.randrange(256), r.randrange(256), r.randrange(256), mid, idhi & 255, idhi >> 8]) + payload
    c = vt.crc16(body + bytes([m["crc"]])) ^ crc_xor
    return b"\xfd" + body + bytes([c & 255, c >> 8]) + (bytes(r.randrange(256) for _ in range(13)) if sign else b"")


def payload(r, m, a=9):
    return b"".join(bytes(v + [0] * (f["size"] - len(v))) for f, v in sorted(
        zip(decl(m), values(r, m, a)[1]), key=lambda x: x[0]["off"]))


def c37(base):
    r = rng("c37")
    for i, g in enumerate(base.gen()):
        rec = use(base, "min" if i % 5 == 4 else "hc")
        allm = list(DIALECT)
        s = Sender(rec, r.choice([0, 250, 255, r.randrange(256)]), r.randrange(256), r.randrange(256))
        for p in g:
            mid = allm[p["a"] % len(allm)] if p["k"] != "array" else r.choice(ARRAYS)
            m = DIALECT[mid]
            vals, wire = values(r, m, r.choice([9, 9, 9, p["c"]]))
            if p["k"] in ("badcrc", "badid", "cut", "trunc"):
                fr = bytearray(frame(mid, payload(r, m), seq=r.randrange(256), sysid=r.randrange(256), comp=r.randrange(256)))
                if p["k"] == "badcrc":
                    i = r.randrange(8 * len(fr))
                    fr[i // 8] ^= 1 << (i % 8)
                elif p["k"] == "badid":
                    fr[5] = r.randrange(256)
                elif p["k"] == "cut":
                    fr = fr[:r.randrange(len(fr))] if p["c"] % 2 else fr + bytes([r.randrange(256)])
                elif p["c"] % 2:
                    fr[1] = r.randrange(256)
                else:                                    # checksum right, length byte wrong
                    fr[1] = (fr[1] + r.choice([-1, 1, 2])) % 256
                    c = vt.crc16(bytes(fr[1:-2]) + bytes([m["crc"]]))
                    fr[-2:] = bytes([c & 255, c >> 8])
                if fr:
                    decode(rec, bytes(fr))
            elif p["k"] in ("short", "long"):
                pl = payload(r, m)
                pl = pl[:r.randrange(len(pl) + 1)] if p["k"] == "short" else (pl + bytes(r.randrange(256) for _ in range(p["c"])))[:255]
                decode(rec, frame(mid, pl, seq=r.randrange(256), sysid=r.randrange(256), comp=r.randrange(256)))
            elif p["k"] in ("v2", "v2signed"):
                decode(rec, v2frame(mid, payload(r, m), r, sign=p["k"] == "v2signed"))
            elif p["k"] == "junk":
                fs = [i for i, f in enumerate(decl(m)) if f["t"] not in ("char", "float", "double") and not f["a"]]
                if fs:
                    i = r.choice(fs)
                    f = decl(m)[i]
                    n = 8 * f["size"]
                    bad = list(vals)
                    bad[i] = r.choice([2 ** n, -1] if f["t"][0] == "u" else [2 ** (n - 1), -2 ** (n - 1) - 1])
                    s.refuse(mid, bad)
            elif p["k"] in ("marks", "text"):
                v = s.pack(mid, vals, wire, p["c"])
                if v is not None:
                    if p["c"] % 2:                       # the same message again, under the sender's number of the moment
                        s.send(*values_of(r), r.randrange(12))
                        s.resend(v[0], mid, wire)
                        v = (v[0], bytes(v[0].get_msgbuf()))
                    o2 = decode(rec, bytes(v[1]))
                    if o2 is not None and not any(isinstance(x, float) and x != x for x in vals):
                        arr = any(f["a"] and f["t"] != "char" for f in decl(m))
                        if not arr:   # a decoded array is a tuple, a built one what the caller passed
                            rec.observe("MsgEq", lambda: (v[0] == o2 or same_after_f32(v[0], o2, m), v[0] != o2 and not same_after_f32(v[0], o2, m)),
                                        lambda x: dict(res=bool(x[0]), nres=bool(x[1])), dict(res=False, nres=False), same=True)
                    o3 = vt.call(lambda: hc.MAVLink(None).decode(array("B", bytes(v[1]))))[2]
                    if o2 is not None and o3 is not None:
                        rec.observe("MsgEq", lambda: (o2 == o3, o2 != o3), lambda x: dict(res=bool(x[0]), nres=bool(x[1])), dict(res=False, nres=False), same=True)
                        fr = bytearray(v[1])
                        ch = r.randrange(2, len(fr) - 2)   # one byte of sequence, ids or payload differs
                        if ch == 5:
                            ch = 2
                        bit = 1 << r.randrange(7)
                        if any(f["t"] == "float" and f["off"] <= ch - 6 < f["off"] + f["size"] for f in m["fields"]):
                            bit = 1 << r.randrange(3)      # (no infinities turned into NaNs)
                            ch = 6 + 4 * ((ch - 6) // 4) + 3 if fr[6 + 4 * ((ch - 6) // 4) + 3] & 0x7F == 0x7F else ch
                        fr[ch] ^= bit
                        c = vt.crc16(bytes(fr[1:-2]) + bytes([m["crc"]]))
                        fr[-2:] = bytes([c & 255, c >> 8])
                        o4 = decode(rec, bytes(fr))
                        if o4 is not None:
                            same = all(enc_val(f, getattr(o3, f["n"])) == enc_val(f, getattr(o4, f["n"])) for f in decl(m)) and ch > 5
                            if \
                                    "nan" not in repr(o4.to_dict()) and "-0.0" not in repr(o4.to_dict()) + repr(o3.to_dict()):
                                rec.observe("MsgEq", lambda: (o3 == o4, o3 != o4), lambda x: dict(res=bool(x[0]), nres=bool(x[1])), dict(res=False, nres=False), same=same)
            else:
                if (p["a"] + p["c"]) % 3 == 0:
                    s.lost(mid, vals, p["c"])
                s.send(mid, vals, wire, p["a"] // 7)
        rec.new_trace()
    for which in ("hc", "min"):
        rec = use(base, which)
        allm = list(DIALECT)
        # every message, several value patterns
        s = Sender(rec, 0, 1, 2)
        for mid in allm:
            for a in (1, 2, 9) if not vt.THOROUGH else (0, 1, 2, 3, 4, 5, 6, 9, 9, 9):
                vals, wire = values(r, DIALECT[mid], a)
                s.send(mid, vals, wire, r.randrange(12))
            v = s.pack(mid, *values(r, DIALECT[mid], 9), r.randrange(3))
            if v is not None:
                decode(rec, bytes(v[1]))
        # a long conversation: the sequence number wraps
        s = Sender(rec, 0, 255, 0)
        small = [i for i in allm if DIALECT[i]["len"] <= 12]
        for k in range(530 if which == "hc" else 270):
            mid = r.choice(small)
            s.send(mid, *values(r, DIALECT[mid], 9), k)


def same_after_f32(a, b, m):
    """equal up to the rounding of a float to its field"""
    if (a.get_type(), a.get_seq(), a.get_srcSystem(), a.get_srcComponent()) != (b.get_type(), b.get_seq(), b.get_srcSystem(), b.get_srcComponent()):
        return False
    for f in decl(m):
        x, y = a.format_attr(f["n"]), b.format_attr(f["n"])
        if f["t"] == "float":
            x = struct.unpack("<f", struct.pack("<f", x))[0]
        if x != y:
            return False
    return True


def piece(r, p):
    allm = list(DIALECT)
    mid = allm[p["a"] % len(allm)]
    m = DIALECT[mid]
    ids = dict(seq=r.randrange(256), sysid=r.randrange(256), comp=r.randrange(256))
    k = p["k"]
    if k == "frame":
        return frame(mid, payload(r, m), **ids)
    if k == "array":
        mid = r.choice(ARRAYS)
        return frame(mid, payload(r, DIALECT[mid]), **ids)
    if k == "badcrc":
        return frame(mid, payload(r, m), crc_xor=1 << r.randrange(16), **ids)
    if k == "badid":
        f = bytearray(frame(mid, payload(r, m), **ids))
        f[5] = r.choice([x for x in range(256) if x not in DIALECT])
        return bytes(f)
    if k == "short":
        pl = payload(r, m)
        return frame(mid, pl[:r.choice([0, r.randrange(len(pl) + 1)])], **ids)
    if k == "long":
        return frame(mid, (payload(r, m) + bytes(r.randrange(256) for _ in range(1 + p["a"] % 9)))[:255], **ids)
    if k == "v2":
        pl = payload(r, m)
        return v2frame(mid, pl[:r.choice([len(pl), r.randrange(len(pl) + 1)])], r)
    if k == "v2signed":
        return v2frame(mid, payload(r, m), r, sign=True)
    if k == "v2flags":
        return v2frame(mid, payload(r, m), r, flags=r.choice([2, 4, 128]), sign=bool(p["a"] % 2))
    if k == "v2bad":
        return v2frame(mid, payload(r, m), r, crc_xor=1 << r.randrange(16), sign=bool(p["a"] % 2))
    if k == "v2id":
        return v2frame(mid, payload(r, m), r, idhi=r.choice([1, 256, 4097]))
    if k == "junk":
        return bytes(r.choice([x for x in range(256) if x not in (253, 254)]) for _ in range(1 + p["a"] % 6))
    if k == "marks":
        return bytes(r.choice([254, 253]) for _ in range(1 + p["a"] % 3)) + bytes([p["a"] % 5, 0, 1])
    if k == "trunc":
        f = frame(mid, payload(r, m), **ids)
        return f[:r.randrange(1, len(f))]
    if k == "cut":
        return bytes([254])
    return bytes(r.randrange(256) for _ in range(p["a"] % 12))


class Receiver:
    def __init__(self, rec, rob):
        self.rec, self.mav, self.n = rec, hc.MAVLink(None), 0
        if rob:
            self.mav.robust_parsing = True
        self.cbs = 0
        self.mav.set_callback(self.cb, 5, y=6)
        rec.emit("Receiver", ok=True, exc="", rob=rob)

    def cb(self, m, *a, **k):
        self.cbs += 1 if (a, k) == ((5,), {"y": 6}) else 1000

    def take(self):
        n, self.cbs = self.cbs, 0
        return dict(cbs=n, rp=I(self.mav.total_packets_received), rn=I(self.mav.total_bytes_received), re=I(self.mav.total_receive_errors))

    D = dict(outs=[], none=True, need=0, cbs=0, rp=0, rn=0, re=0)

    def buffer(self, chunk):
        self.cbs = 0
        self.rec.observe("Buffer", lambda: self.mav.parse_buffer(chunk),
                         lambda v: dict(outs=[enc_msg(o) for o in v or []], none=v is None, need=I(self.mav.bytes_needed()), **self.take()), self.D, chunk=list(chunk))

    def char(self, chunk):
        self.cbs = 0
        self.rec.observe("Char", lambda: self.mav.parse_char(chunk),
                         lambda v: dict(outs=[] if v is None else [enc_msg(v)], none=v is None, need=I(self.mav.bytes_needed()), **self.take()), self.D, chunk=list(chunk))


def c38(base):
    for i, g in enumerate(base.gen()):
        r = rng(f"c38-{i}")
        rec = use(base, "min" if i % 7 == 6 else "hc")
        rob = i % 4 != 3
        rx = Receiver(rec, rob)
        held = b""
        for p in g:
            data = held + piece(r, p)
            held = b""
            if not data:
                continue
            if p["c"] == 3:
                held = data
                continue
            if p["c"] == 0:
                chunks = [data]
            elif p["c"] in (1, 4) and len(data) < 60:
                chunks = [data[j:j + 1] for j in range(len(data))]
            else:
                cuts = sorted(r.sample(range(1, len(data)), min(len(data) - 1, r.randrange(1, 5)))) if len(data) > 1 else []
                chunks = [data[a:b] for a, b in zip([0] + cuts, cuts + [len(data)])]
            if not rob or p["c"] == 4:
                for c in chunks:
                    rx.char(c)
                if rob and p["a"] % 3:
                    for _ in range(3):
                        rx.char(b"")
            else:
                for c in chunks:
                    rx.buffer(c)
        if held and rob:
            rx.buffer(held)
        rec.new_trace()


KEYS = [b"0123456789abcdef0123456789abcdef", bytes(range(32)), b"k"]


def signature(key, data):
    return hashlib.sha256(key + data).digest()[:6]


def signed(mid, pl, key, stream, ts, seq, flags=1, crc_xor=0):
    """a version 2 frame, signed with key"""
    link, sysid, comp = stream
    body = bytes([len(pl), flags, 0, seq, sysid, comp, mid, 0, 0]) + pl
    c = vt.crc16(body + bytes([DIALECT[mid]["crc"]])) ^ crc_xor
    f = b"\xfd" + body + bytes([c & 255, c >> 8])
    if flags & 1:
        f += bytes([link]) + struct.pack("<Q", ts)[:6]
        f += signature(key, f)
    return f


def recrc(f):
    """the checksum put right, the signature left as it is"""
    e = len(f) - 13
    c = vt.crc16(bytes(f[1:e - 2]) + bytes([DIALECT[f[7]]["crc"]]))
    f[e - 2:e] = bytes([c & 255, c >> 8])
    return f


def stamp(ts):
    return [I(ts >> 24), I(ts & 0xFFFFFF)]


TOP = 2 ** 48 - 1


def forged(r, f, key, a):
    """bytes the holder of the key never signed, made from a frame it did"""
    f = bytearray(f)
    how = a % 8
    if how == 0:                                              # payload
        where = [10 + x["off"] + k for x in DIALECT[f[7]]["fields"] if x["t"] not in ("char", "float", "double") for k in range(x["size"])]
        f[r.choice(where or [4])] ^= 1 << r.randrange(8)
        return bytes(recrc(f))
    if how == 1:                                              # a later stamp
        ts = int.from_bytes(f[-12:-6], "little")
        f[-12:-6] = min(TOP, ts + r.choice([1, 2, 300, 1 << 25])).to_bytes(6, "little")
    elif how == 2:                                            # sender
        f[r.choice([5, 6])] ^= 1 << r.randrange(3)
        return bytes(recrc(f))
    elif how == 3:                                            # link
        f[-13] ^= 1 << r.randrange(8)
    elif how == 4:                                            # another key
        f[-6:] = signature(key[::-1] + b"x", bytes(f[:-6]))
    elif how == 5:                                            # no key
        f[-6:] = signature(b"", bytes(f[:-6]))
    elif how == 6:
        f[-1 - r.randrange(6)] ^= 1 << r.randrange(8)
    else:                                                     # sequence number
        f[4] ^= 1 << r.randrange(8)
        return bytes(recrc(f))
    return bytes(f)


def c40(base):
    for i, g in enumerate(base.gen()):
        r = rng(f"c40-{i}")
        rec = use(base, "min" if i % 4 == 3 else "hc")
        cfg = g["cfg"]
        key = r.choice(KEYS)
        now = [0, 2_000_000_000_000 + r.randrange(10 ** 6), (1 << 24) + 5, (5 << 24) + 6_000_000][cfg["t"]]
        mav = hc.MAVLink(None)
        asked = []

        def answer(m, msg_id):
            asked.append(I(msg_id) if m is mav else -1)
            return cfg["cb"] == "yes"
        mav.signing.timestamp = now
        if cfg["key"]:
            mav.signing.secret_key = key
        if cfg["cb"] != "none":
            mav.signing.allow_unsigned_callback = answer
        rec.emit("Link", ok=True, exc="", key=cfg["key"], cb=cfg["cb"], t=stamp(now))
        parts = [(l, s, c) for l in (0, 3) for s in (7, 9) for c in (1, 2)]
        streams = r.sample(parts, 4) if i % 3 else r.sample([(7, 9, 1), (9, 7, 1), (7, 1, 9), (1, 9, 7), (8, 8, 1), (79, 1, 1), (7, 91, 1), (9, 9, 1)], 4)
        last, seen = {}, []
        ids = [k for k in DIALECT if DIALECT[k]["len"] < 40]

        def deliver(f, parse):
            asked.clear()
            auth = len(f) > 13 and signature(key, f[:-6]) == f[-6:]

            def go():
                if parse:
                    outs = mav.parse_buffer(f) or []
                    if len(outs) != 1:
                        raise vt.BadValue("one unit expected")
                    return (outs[0], "") if outs[0].get_type() != "BAD_DATA" else (None, "BAD_DATA")
                ok, exc, v = vt.call(lambda: mav.decode(array("B", f)))
                if not ok and exc != "MAVError":
                    raise vt.BadValue(exc)
                return v, exc

            def enc(x):
                o, why = x
                sg = mav.signing
                return dict(acc=o is not None, why=why, o=enc_msg(o) if o is not None else O0, signed=bool(o is not None and o.get_signed()),
                            link=I(o.get_link_id()) if o is not None and o.get_signed() else 0, t=stamp(sg.timestamp), asked=list(asked),
                            n=dict(sig=I(sg.sig_count), good=I(sg.goodsig_count), bad=I(sg.badsig_count), uns=I(sg.unsigned_count), rej=I(sg.reject_count)))
            ok, x = rec.observe("Frame", go, enc, dict(acc=False, why="", o=O0, signed=False, link=0, t=[0, 0], asked=[],
                                                       n=dict(sig=0, good=0, bad=0, uns=0, rej=0)), f=list(f), auth=auth)
            return ok and x[0] is not None and auth
        mav.robust_parsing = True
        for p in g["ops"]:
            k, a = p["k"], p["a"]
            st = streams[p["s"]]
            mid = ids[a % len(ids)]
            pl = payload(r, DIALECT[mid])
            seq = r.randrange(256)
            ts = last[st] + [1, 1, 7, 1 << 24, 5_999_999][a % 5] if st in last else now + [0, 1, 5, -5_999_999, -6_000_000][a % 5]
            if k == "late":                                   # around the last one accepted on the stream
                ts = last.get(st, now) + [0, -1, -2, -300, -(1 << 24), 1][a % 6]
            elif k == "edge":                                 # around what a new stream may start with
                ts = now + [-6_000_001, -6_000_000, -5_999_999, -6_000_002, -(1 << 25), -6_000_000 - (1 << 24)][a % 6]
            ts = max(0, min(TOP, ts))
            if k in ("replay", "replay2"):
                if not seen:
                    continue
                f = r.choice(seen[-4:] if k == "replay2" else seen)
            elif k == "v1":
                f = frame(mid, pl, seq=seq, sysid=st[1], comp=st[2])
            elif k == "unsigned":
                f = signed(mid, pl, key, st, ts, seq, flags=0)
            elif k == "badcrc":
                f = signed(mid, pl, key, st, ts, seq, crc_xor=1 << r.randrange(16))
            else:
                f = signed(mid, pl, key, st, ts, seq)
                if k in ("forge", "forge2"):
                    f = forged(r, f, key, a // 7)
                elif k == "block":
                    fresh = [x for x in parts if x not in last]
                    f = forged(r, signed(mid, pl, key, r.choice(fresh or parts), min(TOP, now + 10 ** 9), seq), key, 6)
            if deliver(f, a % 3 == 0):
                t = int.from_bytes(f[-12:-6], "little")
                last[(f[-13], f[5], f[6])] = t
                now = max(now, t)
            seen.append(f)
        rec.new_trace()


def drive(prop, rec):
    {"C37": c37, "C38": c38, "C40": c40}[prop](rec)
