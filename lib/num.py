"""Encoding of numbers, vectors and matrices for the numeric harnesses."""
import math


def f(x):
    return x if isinstance(x, str) else float(x).hex() if not (math.isinf(x) or math.isnan(x)) else str(float(x))


def dy(p):
    """dyadic pair [m, e] -> m * 2^e"""
    if p[1] >= 5000:
        return math.nan if p[1] == 6000 else math.copysign(math.inf, p[0])
    return math.ldexp(p[0], p[1])


def vec(v):
    return " ".join([str(len(v))] + [f(x) for x in v])


def mat(rows, n, keep=lambda r, c: True, m=None):
    """rows: list of lists; stored entries are those `keep` says (non-zero ones must be kept by the caller)."""
    ent = [(r, c, rows[r][c]) for c in range(n) for r in range(len(rows)) if keep(r, c)]
    return " ".join([f"{len(rows) if m is None else m} {n} {len(ent)}"] + [f"{r} {c} {f(x)}" for r, c, x in ent])


def close(a, b, rel=1e-12, abs_=0.0):
    if math.isnan(a) or math.isnan(b):
        return math.isnan(a) and math.isnan(b)
    return a == b or abs(a - b) <= max(rel * max(abs(a), abs(b)), abs_)
