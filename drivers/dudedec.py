"""C27 DUDE decoder, C28 EMLE denoiser, C30 turbo decoder"""
import numpy as np
import vt
from vt import I, ints, fx, fxs, rng
from stub import SpaStub, Channel, tag_of_soft, long_ops, TINY
from entropy import THR, clip_of
from decoders.classifying_DUDE_decoder import ClassifyingDudeDecoder
from decoders.turbo import TurboDecoder
from decoders import Decoder, DecoderType
from inference.entropy_mle import EMLE
from ldpc.decoder import LogSpaDecoder


def c27(rec):
    r = rng("c27")
    gens = rec.gen()
    gens.append(dict(cfg=dict(gens[0]["cfg"], min=r.randrange(2)), ops=long_ops(gens, 270), long=1))
    gens.append(dict(cfg=dict(gens[1]["cfg"], min=2), ops=long_ops(gens, 130), long=2))
    for k, g in enumerate(gens):
        cfg = g["cfg"]
        long = g.get("long")
        ch = Channel(r, nmsg=1, fixed_len=[TINY], templates=long) if long else Channel(r, nmsg=1, templates=r.choice([1, 2, 3]))
        stub = SpaStub(ch.n, ch.m + [0, 8, -8][k % 3])
        x = cfg["x"]
        c = dict(m=ch.m, clip8=clip_of(cfg), q=[1, 2, 0][x % 3], ctx=cfg["min"], cc=r.choice([0, 2, 4]), s20=r.choice([5, 10]), kc=[1, 2, 3, 2][x % 4], min=r.choice([2, 3, 3, 4]), cluster=bool(x % 5))
        if long:
            c.update(kc=long, cluster=True, cc=40, s20=7)
        kw = vt.opts(r, bit_flip=(c["q"] / 8, 0.0), cluster=(int(c["cluster"]), 1))
        ok, d = rec.observe("NewD", lambda: ClassifyingDudeDecoder(stub, ch.m, clip_of(cfg) / 8, c["min"], c["kc"], c["ctx"], c["cc"], c["s20"] / 20, **kw), lambda v: {}, {}, c=c)
        if not ok:
            continue
        for o in g["ops"]:
            w1 = ch.word(ch.data(o["e1"] if o["e1"] != "junk" or r.random() < .3 else "full", o["t"], o["v"]))
            llr = ch.llr(w1, noise=r.choice([0, .05, .15]))
            est = w1 if o["ok1"] else ch.word(ch.data("junk", 0, 0))
            tag = r.randrange(1, 60)
            res = dict(est=est, ok=o["ok1"], it=r.randrange(1, 50), tag=tag)
            stub.script, stub.calls = [(est, o["ok1"], res["it"], tag)], []
            arg = np.array(llr, dtype=float) / 8
            ok, _ = rec.observe("Decode", lambda: d.decode_buffer(arg), lambda v: dict(est=ints(v[0]), okk=vt.Btruthy(v[2]), it=I(v[3]), tag=tag_of_soft(v[1]), lab=I(v[4]), den=ints(v[5]),
                                                                                     call=fxs(stub.calls[0], 1000), neg=[int(y < 0) for y in stub.calls[0]], ncalls=len(stub.calls)),
                                dict(est=[], okk=False, it=0, tag=0, lab=-9, den=[], neg=[], call=[], ncalls=0), llr=llr, r=res)
            if not ok:
                break
        rec.new_trace()


def c28(rec):
    r = rng("c28")
    gens = rec.gen()
    gens += [dict(cfg=dict(gens[j]["cfg"], w=w, x=2 * j, thr=[3, 5, 2, 4][j]), ops=[o for q in gens[j:] for o in q["ops"] if o["e1"] != "junk"][:n], long=True) for j, (w, n) in enumerate([(0, 290), (130, 170), (0, 130), (101, 120)])]
    for k, g in enumerate(gens):
        cfg = g["cfg"]
        x = cfg["x"]
        n = 10 if "long" in g else r.choice([1, 5, 12, 20])
        softin = x % 2 == 0
        c = dict(m=n, thr=THR[cfg["thr"]], w=cfg["w"], q=([0, 1, 2] if softin else [1, 2, 1])[x % 3], cc=r.choice([0, 2, 4]), s20=r.choice([5, 10]), hard=x >= 6, softin=softin, pre=[])
        kw = vt.opts(r, window_length=(c["w"], 0), hard_decision=(c["hard"], False), soft_input=(softin, True))
        if "long" in g:
            c.update(q=0 if softin else 2, cc=40, s20=7)
            kw.update(vt.opts(r, conf_center=(40, 40), conf_slope=(.35, .35)))
        else:
            kw.update(conf_center=c["cc"], conf_slope=c["s20"] / 20)
        ok, d = rec.observe("NewE", lambda: EMLE(c["q"] / 8, c["thr"] / 1e6, **kw), lambda v: {}, {}, c=c)
        if not ok:
            continue
        base = [[r.randrange(2) for _ in range(n)] for _ in range(4)]

        def row(o):
            b = [y ^ (r.random() < [0, .1, .4][o["v"]]) for y in base[o["t"] if x % 4 == 3 else 0]]
            return [(-1) ** y * r.randrange(0, 40) for y in b] if softin else b

        def enc1(est, cost):
            est = np.asarray(est)
            if est.ndim != 1:
                raise vt.BadValue("shape")
            if c["hard"]:
                return dict(v=[], neg=ints(est), cost=I(cost))
            return dict(v=fxs(est, 1000), neg=[int(y < 0) for y in est], cost=I(cost))

        def state():
            rec.observe("State", lambda: (d.model_size, d.p1), lambda v: dict(size=I(v[0]), p=fxs(v[1], 10000)), dict(size=0, p=[]))
        ops = g["ops"]
        i = 0
        while i < len(ops):
            o = ops[i]
            if o["e1"] == "part":       # several at once
                rows = [row(ops[j]) for j in range(i, min(i + 3, len(ops)))]
                i += 3
                arr = np.array(rows, dtype=float) / 8 if softin else np.array(rows, dtype=np.int_)
                ok, _ = rec.observe("Rows", lambda: d.denoise_sequence(arr), lambda v: dict(rs=[enc1(a, b) for a, b in zip(v[0], v[1], strict=True)]), dict(rs=[]), rows=[dict(x=[int(y) for y in q]) for q in rows])
            else:
                if o["e1"] == "junk" and o["t"] == 3 and i:
                    rec.observe("Reset", d.reset, lambda v: {}, {})
                q = row(o)
                i += 1
                arr = np.array(q, dtype=float) / 8 if softin else np.array(q, dtype=np.int_)
                ok, _ = rec.observe("Rows", lambda: d.denoise_buffer(arr), lambda v: dict(rs=[enc1(*v)]), dict(rs=[]), rows=[dict(x=[int(y) for y in q])])
            if not ok:
                break
            state()
        rec.new_trace()


class First(Decoder):
    def __init__(self, log):
        self.log = log
        super().__init__(DecoderType.ENTROPY)

    def decode_buffer(self, channel_word):
        return self.log.next(1, channel_word) + (5, 7)


class Second(LogSpaDecoder):
    def __init__(self, log):
        self.log = log

    def decode(self, channel_word, max_iter=None):
        return self.log.next(2, channel_word) + (5, np.array([0]), np.array([0]))


class Log:
    def next(self, who, word):
        self.calls.append(ints(np.asarray(word, dtype=float) * 8))
        self.who.append(who)
        x = self.r[min(len(self.calls), len(self.r)) - 1]
        return np.array(x["est"], dtype=np.int_), np.array(x["llr"], dtype=float) / 8, x["ok"]


def c30(rec):
    r = rng("c30")
    for k, g in enumerate(rec.gen()):
        log = Log()
        maxit, debug = 1 + g["cfg"]["min"], bool(g["cfg"]["x"] % 2)
        d = TurboDecoder(First(log), Second(log), maxit, debug) if debug or r.random() < .5 else TurboDecoder(First(log), Second(log), maxit)
        for o in g["ops"]:
            n = r.choice([1, 4, 9])
            sent = [r.randrange(2) for _ in range(n)]
            llr = [(-1) ** b * r.randrange(0, 20) * (-1 if r.random() < .2 else 1) for b in sent]
            last = 2 * maxit if not o["ok1"] and not o["ok2"] else r.randrange(1, 2 * maxit + 1)
            rs = [dict(est=[r.randrange(2) for _ in range(n)], llr=[r.randrange(-99, 100) for _ in range(n)], ok=bool((o["ok1"] or o["ok2"]) and i == last)) for i in range(1, 2 * maxit + 1)]
            log.calls, log.who, log.r = [], [], rs
            arg = np.array(llr, dtype=float) / 8
            err = np.flatnonzero((arg < 0) != np.array(sent))
            rec.observe("Turbo", lambda: d.decode_buffer(arg, err), lambda v: dict(est=ints(v[0]), out=ints(np.asarray(v[1]) * 8), okk=vt.Btruthy(v[2]), dec=I(v[3]), err=I(v[4]), calls=list(log.calls), who=list(log.who)),
                        dict(est=[], out=[], okk=False, dec=0, err=0, calls=[], who=[]), llr=llr, r=rs, maxit=maxit, debug=debug, sent=sent)
        rec.new_trace()


def drive(prop, rec):
    {"C27": c27, "C28": c28, "C30": c30}[prop](rec)
