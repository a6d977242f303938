#!/usr/bin/env python3
"""trusted function graphs used by the specifications (Python's math module only, never the code under test)"""
import json, math, os
EPS = 2.220446049250313e-16
def h(p):
    return 0.0 if p in (0, 1) else -p * math.log2(p) - (1 - p) * math.log2(1 - p)
N = 300
def hel(a, n, b, m):
    return math.sqrt(max(0.0, 1 - math.sqrt((n - a) / n * (m - b) / m) - math.sqrt(a / n * b / m)))
def kl2(p, q):
    return 0.0 if p == 0 else math.inf if q == 0 else p * math.log2(p / q)
def skl(a, n, b, m):
    p, q = a / n, b / m
    return min(10.0, kl2(p, q) + kl2(1 - p, 1 - q) + kl2(q, p) + kl2(1 - q, 1 - p))
K = 8
out = {
    # z = i/40, i = 0..400 ; values in 1e-6
    "erfc": [round(math.erfc(i / 40 / math.sqrt(2)) * 1e6) for i in range(401)],
    "cdf": [round(.5 * math.erfc(-i / 40 / math.sqrt(2)) * 1e6) for i in range(401)],
    "pdf": [round(math.exp(-(i / 40) ** 2 / 2) / math.sqrt(2 * math.pi) * 1e6) for i in range(401)],
    # [n][k] for k successes (ones) of n, n = 1..N, k = 0..n
    "ent": [[round(h(k / n) * 1e6) for k in range(n + 1)] for n in range(1, N + 1)],
    # ln((p0 + eps) / (p1 + eps)) in 1e-3
    "ln": [[round(math.log((1 - k / n + EPS) / (k / n + EPS)) * 1e3) for k in range(n + 1)] for n in range(1, N + 1)],
    # ln(eps + k/n) in 1e-3
    "lnp": [[round(math.log(k / n + EPS) * 1e3) for k in range(n + 1)] for n in range(1, N + 1)],
    # 1/(1+exp(-i/20)), i = 0..400 in 1e-4
    "sig": [round(1e4 / (1 + math.exp(-i / 20))) for i in range(401)],
    # 1 - exp(-0.1/v), v = i/20000, i = 0..10000 in 1e-4
    "vfac": [10000] + [round(1e4 * (1 - math.exp(-2000 / i))) for i in range(1, 10001)],
    # sqrt(i/1e4) in 1e-4, i = 0..10000
    # [n][m][a][b]: Hellinger distance / symmetric KL divergence clipped at 10, of two bits with a ones of n, b ones of m; 1e-5 / 1e-4
    "hel": [[[[round(1e5 * hel(a, n, b, m)) for b in range(m + 1)] for a in range(n + 1)] for m in range(1, K + 1)] for n in range(1, K + 1)],
    "skl": [[[[round(1e4 * skl(a, n, b, m)) for b in range(m + 1)] for a in range(n + 1)] for m in range(1, K + 1)] for n in range(1, K + 1)],
    # sqrt(n/2) in 1e-3, n = 1..100
    "wsqrt": [round(1e3 * math.sqrt(n / 2)) for n in range(1, 101)],
    # ln(i) in 1e-3, i = 1..32768
    "lnint": [round(math.log(i) * 1e3) for i in range(1, 32769)],
    # [n][k]: -(k/n) log2(k/n) in 1e-6, n = 1..24, k = 0..n
    "plogp": [[0 if k == 0 else round(-k / n * math.log2(k / n) * 1e6) for k in range(n + 1)] for n in range(1, 25)],
    # sqrt(i) in 1e-4, i = 0..400
    "sqrti": [round(math.sqrt(i) * 1e4) for i in range(401)],
    "sqrt4": [round(math.sqrt(i / 1e4) * 1e4) for i in range(10001)],
}
json.dump(out, open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "spec", "tables.json"), "w"))
