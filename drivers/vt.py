"""recording helpers for drivers: every call into the code under test goes through call(); results are encoded to
bounded integers / strings so that the trace specifications can evaluate any outcome (also wrong ones)."""
import collections, contextlib, hashlib, io, json, math, os, random, signal, sys
import numpy as np

SEED = int(os.environ.get("VERIF_SEED", "1"))
THOROUGH = os.environ.get("VERIF_TIER") == "thorough"
SPECDIR = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "spec")
LIM = 2 ** 31 - 1


class BadValue(Exception):
    pass


class Hung(BaseException):
    """calls into the code under test keep not returning"""


class CallTimeout(Exception):
    pass


def rng(tag):
    return random.Random(hashlib.sha256(f"{SEED}:{tag}".encode()).digest())


def nrng(tag):
    return np.random.default_rng(int.from_bytes(hashlib.sha256(f"{SEED}:{tag}".encode()).digest()[:8], "big"))


def I(x):
    """an exact integer in TLC's range"""
    if isinstance(x, (bool, np.bool_)):
        return int(x)
    if isinstance(x, np.ndarray):
        if x.size != 1:
            raise BadValue(f"expected a scalar, got shape {x.shape}")
        x = x.reshape(-1)[0].item()
    f = float(x)
    if not math.isfinite(f) or f != int(f) or abs(f) > LIM:
        raise BadValue(f"not a bounded integer: {x!r}")
    return int(f)


def ints(xs):
    if isinstance(xs, np.ndarray) and xs.ndim != 1:
        raise BadValue(f"expected a 1-d array, got shape {xs.shape}")
    return [I(x) for x in xs]


def fx(x, scale):
    """fixed point: round(x*scale)"""
    if isinstance(x, np.ndarray):
        if x.size != 1:
            raise BadValue(f"expected a scalar, got shape {x.shape}")
        x = x.reshape(-1)[0].item()
    f = float(x)
    if not math.isfinite(f):
        raise BadValue(f"not finite: {x!r}")
    v = round(f * scale)
    if abs(v) > LIM:
        return LIM if v > 0 else -LIM
    return int(v)


def fxs(xs, scale):
    if isinstance(xs, np.ndarray) and xs.ndim != 1:
        raise BadValue(f"expected a 1-d array, got shape {xs.shape}")
    return [fx(x, scale) for x in xs]


def B(x):
    if not isinstance(x, (bool, np.bool_)):
        raise BadValue(f"expected a bool, got {x!r}")
    return bool(x)


def Btruthy(x):
    return bool(x)


@contextlib.contextmanager
def limit(seconds):
    def h(sig, frm):
        raise CallTimeout(f"no result after {seconds}s")
    old = signal.signal(signal.SIGALRM, h)
    signal.alarm(seconds)
    try:
        yield
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)


hangs = 0


def call(f, *a, seconds=30, **k):
    """(ok, exception name, value)"""
    out = io.StringIO()
    try:
        with limit(seconds), contextlib.redirect_stdout(out):
            return True, "", f(*a, **k)
    except CallTimeout as e:
        global hangs
        hangs += 1
        if hangs >= 3:
            raise Hung(str(e))
        return False, "Timeout", None
    except Exception as e:
        return False, type(e).__name__, None


class Recorder:
    def __init__(self, work):
        self.work = work
        self.files = {}
        self.stats = {"events": collections.Counter(), "samples": [], "traces": 0, "evaluations": 0}
        self.seen = set()

    def gen(self, name="gen"):
        p = os.path.join(self.work, name + ".ndjson")
        return [json.loads(l) for l in open(p)]

    def emit(self, ev, name="trace", nontrivial=True, **fields):
        if name not in self.files:
            self.files[name] = open(os.path.join(self.work, name + ".ndjson"), "w")
        rec = {"ev": ev, **fields}
        s = json.dumps(rec)
        self.files[name].write(s + "\n")
        self.stats["events"][ev] += 1
        self.stats["evaluations"] += 1
        if nontrivial:
            self.seen.add(hashlib.md5(s.encode()).digest())
        n = self.stats["events"][ev]
        if n in (1, 7) and len(self.stats["samples"]) < 6 and len(s) < 4000:
            self.stats["samples"].append(rec)
        return rec

    def observe(self, ev, fn, encode, defaults, name="trace", expect=(), **fields):
        """call fn(), encode its result into fields; any exception / unencodable value becomes ok=false, exc=<name>"""
        ok, exc, val = call(fn)
        enc = dict(defaults)
        if ok:
            try:
                enc.update(encode(val))
            except Exception as e:
                ok, exc = False, "Bad:" + type(e).__name__
                enc = dict(defaults)
        self.emit(ev, name=name, ok=ok, exc=exc, **fields, **enc)
        return ok, val

    def new_trace(self):
        self.stats["traces"] += 1

    def close(self):
        for f in self.files.values():
            f.close()

    def write_stats(self):
        self.stats["distinct"] = len(self.seen)
        self.stats["events"] = dict(self.stats["events"])
        with open(os.path.join(self.work, "stats.json"), "w") as f:
            json.dump(self.stats, f)


DIALECT = {m["id"]: m for m in json.load(open(os.path.join(SPECDIR, "dialect.json")))}
SCALAR_IDS = [i for i, m in DIALECT.items() if m["len"] == m["scalar"]]
ARRAY_IDS = [i for i, m in DIALECT.items() if m["len"] != m["scalar"]]


def opts(r, **pairs):
    """keyword arguments from name=(value, documented default): a value equal to the default is passed only half of the time"""
    return {k: v for k, (v, d) in pairs.items() if not (type(v) is type(d) and v == d) or r.random() < .5}


def crc16(data, c=0xFFFF):
    for b in data:
        t = b ^ (c & 0xFF)
        t = (t ^ (t << 4)) & 0xFF
        c = ((c >> 8) ^ (t << 8) ^ (t << 3) ^ (t >> 4)) & 0xFFFF
    return c


def frame(msg_id, payload, seq=0, sysid=1, comp=1, length=None, crc_xor=0, table=None):
    """an over-the-air frame, built without the code under test"""
    m = (table or DIALECT)[msg_id]
    ln = len(payload) if length is None else length
    body = bytes([ln, seq, sysid, comp, msg_id]) + bytes(payload)
    c = crc16(body + bytes([m["crc"]])) ^ crc_xor
    return bytes([0xFE]) + body + bytes([c & 0xFF, c >> 8])


def rand_frame(r, msg_id=None, **k):
    if msg_id is None:
        msg_id = r.choice(SCALAR_IDS)
    m = DIALECT[msg_id]
    k.setdefault("seq", r.randrange(256)); k.setdefault("sysid", r.randrange(256)); k.setdefault("comp", r.randrange(256))
    payload = bytes(r.randrange(256) for _ in range(m["len"]))
    return frame(msg_id, payload, **k)
