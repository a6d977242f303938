"""scripted inner LDPC decoders (recording what they are given), telemetry templates and channel words"""
import numpy as np
from ldpc.decoder import LogSpaDecoder, WbfDecoder, GalBfDecoder
import vt
from vt import DIALECT, frame

SHORT = [i for i in vt.SCALAR_IDS if DIALECT[i]["len"] <= 6 and all(f["t"] != "char" for f in DIALECT[i]["fields"])]


class Script:
    """shared by the three stub decoders: .script = list of (est bits, ok, iterations, tag), .calls = recorded inputs"""
    def _setup(self, n, k):
        self.n, self.k, self.m = n, k, n - k
        self.info_idx = np.array([True] * k + [False] * (n - k))
        self.h = np.concatenate([np.ones((n - k, k), dtype=np.int_), np.eye(n - k, dtype=np.int_)], axis=1)
        self.max_iter = 10
        self.calls, self.script, self.extra, self.given = [], [], [], []

    def _next(self, word):
        self.given.append(word)
        self.calls.append(np.array(word, dtype=float).copy())
        i = min(len(self.calls), len(self.script)) - 1
        return self.script[i]

    def info_bits(self, estimate):
        return estimate[self.info_idx]


class SpaStub(Script, LogSpaDecoder):
    def __init__(self, n, k):
        self._setup(n, k)

    def decode(self, channel_word, max_iter=None):
        est, ok, it, tag = self._next(channel_word)
        return np.array(est, dtype=np.int_), soft(est, tag), ok, it, np.full(self.m, tag, dtype=np.int_), np.full(self.n, tag, dtype=np.int_)


class WbfStub(Script, WbfDecoder):
    def __init__(self, n, k):
        self._setup(n, k)

    def decode(self, channel_llr, prior_reliability=None):
        est, ok, it, tag = self._next(channel_llr)
        self.extra.append(None if prior_reliability is None else np.array(prior_reliability, dtype=float).copy())
        return np.array(est, dtype=np.int_), ok, it, np.full(self.m, tag, dtype=np.int_), np.full(self.n, tag, dtype=np.int_)


class GalStub(Script, GalBfDecoder):
    def __init__(self, n, k):
        self._setup(n, k)

    def decode(self, channel_word):
        est, ok, it, tag = self._next(channel_word)
        return np.array(est, dtype=np.int_), ok, it, np.full(self.m, tag, dtype=np.int_), np.full(self.n, tag, dtype=np.int_)


def soft(est, tag):
    return np.where(np.array(est) > 0, -1.0, 1.0) * (tag + 1) / 4


def tag_of_soft(a):
    """which inner result this soft output came from"""
    a = np.asarray(a, dtype=float)
    t = abs(a[0]) * 4 - 1
    return vt.I(t) if np.all(np.abs(a) == abs(a[0])) else -1


def tag_of(a):
    a = np.asarray(a)
    return vt.I(a[0]) if np.all(a == a[0]) else -1


def bits_of(b):
    return np.unpackbits(np.frombuffer(bytes(b), dtype=np.uint8)).astype(int).tolist()


class Channel:
    """telemetry of a fixed layout: template t fixes the messages and base payloads, v how much the payload varies"""
    def __init__(self, r, nmsg=2, parity=16, templates=4, fixed_len=None):
        self.r, self.parity = r, parity
        lens = sorted({DIALECT[i]["len"] for i in SHORT})
        ls = fixed_len or [r.choice(lens) for _ in range(nmsg)]
        self.tpl = []
        for _ in range(templates):
            ids = [r.choice([i for i in SHORT if DIALECT[i]["len"] == ln]) for ln in ls]
            self.tpl.append([(i, bytes(r.randrange(256) for _ in range(ln)), r.randrange(256)) for i, ln in zip(ids, ls)])
        self.nbytes = sum(ls) + 8 * len(ls)
        self.m = 8 * self.nbytes
        self.n = self.m + parity
        self.count = 0

    def frames(self, t, v):
        self.count += 1
        out = []
        for mid, p, sysid in self.tpl[t % len(self.tpl)]:
            p = bytearray(p)
            if v == 1:
                p[self.r.randrange(len(p))] ^= 1 << self.r.randrange(8)
            elif v == 2:
                p = bytearray(self.r.randrange(256) for _ in p)
            out.append(frame(mid, bytes(p), seq=7 if v == 0 else self.count % 256, sysid=sysid, comp=1))
        return out

    def data(self, kind, t, v):
        """model bits of one estimate"""
        r, fs = self.r, self.frames(t, v)
        if kind == "full":
            return bits_of(b"".join(fs))
        if kind == "part":
            k = r.randrange(len(fs))
            for j in range(len(fs)):
                if j == k or len(fs) == 1 or r.random() < .2:
                    f = bytearray(fs[j])
                    f[r.randrange(len(f))] ^= 1 << r.randrange(8)
                    fs[j] = bytes(f)
            return bits_of(b"".join(fs))
        return [r.randrange(2) for _ in range(self.m)]

    def word(self, mbits):
        return list(mbits) + [self.r.randrange(2) for _ in range(self.parity)]

    def llr(self, word, noise=.08, scale=None):
        """dyadic channel llr in eighths; now and then a word of which nothing was received"""
        if self.r.random() < .02:
            return [0] * len(word)
        s = scale or self.r.choice([8, 24, 64])
        out = []
        for b in word:
            a = self.r.randrange(0, s + 1)
            x = -a if b else a
            out.append(-x if self.r.random() < noise else x)
        return out


def long_ops(gens, length, keep=7):
    """one long history: the spec-generated histories one after the other, most transmissions made to succeed so that models fill up"""
    ops = [o for g in gens for o in g["ops"]]
    out = []
    for i in range(length):
        o = dict(ops[i % len(ops)])
        if i % keep:
            o.update(ok1=True, e1="full")
        out.append(o)
    return out


# shortest telemetry, for long histories
TINY = min(DIALECT[i]["len"] for i in SHORT)
LONG = [(0, 290, 10), (130, 190, 9), (0, 120, 3)]            # window, steps, every how many steps the generated outcome is kept
