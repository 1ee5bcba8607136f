"""Driver for the ratio of graded rows of cells."""
import math
from fractions import Fraction

from .core import call

BASE, FRAC, TOTAL = 10000, 5, 9


def digits(v):
    """a nonnegative number as digits, rounded down"""
    k = math.floor(Fraction(v) * BASE ** FRAC)
    if k < 0 or k >= BASE ** TOTAL:
        return []
    r = []
    for _ in range(TOTAL):
        k, d = divmod(k, BASE)
        r.append(d)
    return r


def lengths(rng, n):
    while True:
        a = rng.choice([1, 10, 1000, rng.randint(1, 9999), rng.randint(1, 9999)])
        m = rng.random()
        if m < 0.2:
            b = n * a + rng.choice([0, 0, -1, 1, 2])
        elif m < 0.4:
            b = int(n * a * (1 + rng.choice([-1, 1]) * 10 ** rng.uniform(-5, -0.5)))
        elif m < 0.6:
            b = int(a * sum(rng.choice([0.5, 0.8, 0.9, 0.99, 1.01, 1.1, 1.2, 2]) ** k for k in range(n)))
        elif m < 0.8:
            b = int(a * n * 10 ** rng.uniform(-0.5, 0.5))
        else:
            b = int(a * 10 ** rng.uniform(0.01, 4))
        if a * 1.01 < b < min(10 ** 8, a * 10 ** 4):
            return a, b


def traces(ctx, n):
    from pymech.meshtools import exponential_refinement_parameter as ratio

    rng, out = ctx.rng, []
    for t in range(n):
        ev = []
        k = None
        for _ in range(8):
            old = None if k is None or rng.random() < 0.5 else (k, a, b, scale)
            k = rng.choice([2, 2, 3, 4, 5, 7, 10, 15, 20, 30, rng.randint(2, 60)])
            a, b = lengths(rng, k)
            scale = rng.choice([1.0, 1e-4, 1e-2, 10.0, 0.125, 1 / 3])
            if old:             # as before, or with one argument changed
                new = (k, a, b, scale)
                k, a, b, scale = old
                i = rng.randrange(5)
                if i == 0:
                    k = new[0]
                elif i == 1 and b > new[1] * 1.01 and b < new[1] * 10 ** 4:
                    a = new[1]
                elif i == 2 and a * 1.01 < new[2] < a * 10 ** 4:
                    b = new[2]
                elif i == 3:
                    scale = new[3]
            args = [a * scale, b * scale, k]
            kw = {}
            tol = 1e-14
            if rng.random() < 0.3:
                tol = rng.choice([1e-3, 1e-6, 1e-9, 1e-12])
                if rng.random() < 0.5:
                    args.append(tol)
                else:
                    kw["tol"] = tol
            st, x = call(ratio, *args, **kw)
            e = dict(op="ratio", n=k, a=digits(a), b=digits(b), st=st, x=[], within=digits(1e-9), args=repr(args), tol=tol, val=repr(x))
            if st == "ok":
                try:
                    e["x"] = digits(x)
                    e["within"] = digits(max(3e-10 * max(1.0, float(x)), 50 * tol))
                except Exception:  # noqa: BLE001
                    pass
            ev.append(e)
        out.append(dict(id=f"ratio{t}", ev=ev))
    return out
