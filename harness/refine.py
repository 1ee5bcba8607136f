"""Driver for refining extrusion."""
import copy
import math
from itertools import product

import numpy as np

from . import fields, meshes
from .core import call
from .fields import safe_digest

UNITS = [1.0, 0.5, 0.0625, 4.0, 2.0 ** -20, 2.0 ** 17]
RING = [(0, 0), (1, 0), (1, 1), (0, 1)]     # corners (x, y) of an element, anticlockwise


def value(f, x, y):
    if f["k"] == "line":
        v = f["a"] * x + f["b"] * y - f["c"]
    elif f["k"] == "square":
        v = max(abs(x - f["a"]), abs(y - f["b"])) - f["c"]
    elif f["k"] == "disc":
        v = (x - f["a"]) ** 2 + (y - f["b"]) ** 2 - f["c"]
    else:
        v = (x - f["a"]) * (y - f["b"]) - f["c"]
    return f["s"] * v


def function(f, u, by_par):
    """the function given to the library, and its parameter"""
    def fun(x, y, par):
        x, y = np.asarray(x) / u, np.asarray(y) / u
        x, y = float(x.ravel()[0]), float(y.ravel()[0])
        g = dict(f, c=par) if by_par else f
        return value(g, x, y)
    return fun, (f["c"] if by_par else 0.0)


class Plane:
    """quads (rings of vertex keys), positions, boundary edges and which of them are periodic to each other"""

    def __init__(self, rng, quads, xy, periodic=None):
        rng.shuffle(quads)
        self.rng, self.xy, self.periodic = rng, xy, periodic or {}
        self.quads = []
        for q in quads:
            r = rng.randrange(4)
            self.quads.append(list(q[r:]) + list(q[:r]))
        self.edge = {}
        for i, q in enumerate(self.quads):
            for j in range(4):
                self.edge.setdefault(frozenset((q[j], q[(j + 1) % 4])), []).append((i, j))

    def only(self, cells):
        return Plane(self.rng, [self.quads[i] for i in cells], self.xy, self.periodic)

    def across(self, i, j):
        q = self.quads[i]
        me = frozenset((q[j], q[(j + 1) % 4]))
        own = self.edge[me]
        if len(own) == 2:
            return ("E", own[0] if own[1] == (i, j) else own[1])
        if me in self.periodic and self.periodic[me] in self.edge and len(self.edge[self.periodic[me]]) == 1:
            return ("P", self.edge[self.periodic[me]][0])
        return None

    def corners(self, i):
        """positions in storage order"""
        q = self.quads[i]
        return [self.xy[q[k]] for k in (0, 1, 3, 2)]

    def mesh(self, HexaData, u, nbc, internal, empty, curved, kinds):
        rng = self.rng
        n = len(self.quads)
        nv = [rng.choice([2, 3]), rng.choice([0, 2]), rng.choice([0, 1]), rng.choice([0, 1]), rng.choice([0, 1, 2])]
        d = HexaData(2, n, [2, 2, 1], nv, nbc)
        own = rng.choice([0, 0.8, 1])
        bnd = {}
        for i, e in enumerate(d.elem):
            for (x, y), k in zip(RING, self.quads[i]):
                for a in range(2):
                    e.pos[a, 0, y, x] = self.xy[k][a] * u
            for j in range(4):
                nb = self.across(i, j)
                blank = nb is None and rng.random() < empty
                for b in range(nbc):
                    c = e.bcs[b, j]
                    if rng.random() < own:
                        c[1], c[2] = i + 1, j + 1
                    if nb is None:
                        if not blank:
                            c[0] = rng.choice(meshes.EXT)
                            if rng.random() < 0.3:
                                for p in range(3, 8):
                                    c[p] = rng.randint(-3, 9)
                    elif nb[0] == "P" or internal:
                        c[0], c[3], c[4] = nb[0], nb[1][0] + 1, nb[1][1] + 1
                    if c[0] == "" and not internal:
                        c[1] = c[2] = 0
        for k, own in self.edge.items():
            if rng.random() > curved:
                continue
            i, j = own[0]
            a, b = (np.array(self.xy[self.quads[i][x]]) for x in (j, (j + 1) % 4))
            kind = rng.choice(kinds)
            if kind == "m":
                m = [int((a[c] + b[c]) // 2 + rng.randint(-1, 1)) for c in range(2)]
                for i, j in own:
                    d.elem[i].ccurv[j] = "m"
                    d.elem[i].curv[j, :2] = [x * u for x in m]
            else:
                R = meshes.circle_radius(rng, a, b)
                if R is None or abs(R) < 0.6 * math.hypot(*(a - b)):
                    continue
                for (i, j), s in zip(own, (1, -1)):
                    d.elem[i].ccurv[j] = "C"
                    d.elem[i].curv[j, 0] = s * R * u
        d.ncurv = sum(c != "" for e in d.elem for c in e.ccurv)
        m = list(range(1, n + 1))
        rng.shuffle(m)
        d.elmap = np.array(m, dtype=np.int32)
        meshes.sealed(rng, d)
        return d


def grid(rng, nx, ny, wrap):
    """columns of cells; lines between columns cut whole columns"""
    jit = rng.choice([0, 0, 2])
    step = rng.choice([[8], [8, 12], [8, 12, 16]])
    xs, ys = [2 * rng.randint(-8, 8)], [2 * rng.randint(-8, 8)]
    for _ in range(nx):
        xs.append(xs[-1] + rng.choice(step))
    for _ in range(ny):
        ys.append(ys[-1] + rng.choice(step))
    shear, swap = rng.choice([0, 0, 0, 1, -1]), rng.random() < 0.5
    xy = {}
    for i, j in product(range(nx + 1), range(ny + 1)):
        x = xs[i] + (2 * rng.randint(-1, 1) if jit else 0)
        y = ys[j] + (2 * rng.randint(-1, 1) if jit and not wrap else 0)
        x += shear * y
        xy[i, j] = (y, x) if swap else (x, y)
    if wrap and jit:     # both ends of a row of periodic cells have the same shape
        for i in range(nx + 1):
            a, b = xy[i, 0], xy[i, ny]
            k = 1 if swap else 0
            v = list(b)
            v[k] = a[k] + shear * (ys[-1] - ys[0])
            xy[i, ny] = tuple(v)
    quads = []
    for i, j in product(range(nx), range(ny)):
        q = [(i, j), (i + 1, j), (i + 1, j + 1), (i, j + 1)]
        quads.append(q[::-1] if swap else q)
    if not wrap and rng.random() < 0.25:
        quads = [q for q in quads if rng.random() < 0.85] or quads
    per = {}
    if wrap:
        for i in range(nx):
            a, b = frozenset([(i, 0), (i + 1, 0)]), frozenset([(i, ny), (i + 1, ny)])
            per[a], per[b] = b, a

    def line(col, frac):
        """between two columns of vertices: `frac` of the way"""
        lo = max(xy[col, j][1 if swap else 0] - shear * xy[col, j][0 if swap else 1] for j in range(ny + 1))
        hi = min(xy[col + 1, j][1 if swap else 0] - shear * xy[col + 1, j][0 if swap else 1] for j in range(ny + 1))
        c = lo + int((hi - lo) * frac)
        a, b = (-shear, 1) if swap else (1, -shear)
        return dict(k="line", a=a, b=b, c=c, s=1)
    return Plane(rng, quads, xy, per), line


def rings(rng, n, layers):
    """a block of n x n cells and rings around it"""
    h = rng.choice([4, 6, 8])
    ox, oy = 2 * rng.randint(-6, 6), 2 * rng.randint(-6, 6)
    side = [(i, 0) for i in range(n)] + [(n, i) for i in range(n)] + [(n - i, n) for i in range(n)] + [(0, n - i) for i in range(n)]
    xy = {}
    for i, j in product(range(n + 1), range(n + 1)):
        xy[0, i, j] = ((2 * i - n) * h, (2 * j - n) * h)
    fac = [1]
    for _ in range(layers):
        fac.append(fac[-1] + rng.choice([1, 1, 2]) if n == 1 else fac[-1] + 1)
    for k in range(1, layers + 1):
        for i, j in side:
            x, y = xy[0, i, j]
            xy[k, i, j] = (x * fac[k], y * fac[k])
    xy = {k: (x + ox, y + oy) for k, (x, y) in xy.items()}
    quads = [[(0, i, j), (0, i + 1, j), (0, i + 1, j + 1), (0, i, j + 1)] for i, j in product(range(n), range(n))]
    for k in range(layers):
        for a, b in zip(side, side[1:] + side[:1]):
            quads.append([(k + 1,) + a, (k + 1,) + b, (k,) + b, (k,) + a])

    def ring(layer, frac, disc):
        lo, hi = n * h * fac[layer], n * h * fac[layer + 1]
        if disc:
            return dict(k="disc", a=ox, b=oy, c=int(2 * lo * lo + (2 * hi * hi - 2 * lo * lo) * frac) if n == 1
                        else int(2 * lo * lo + (hi * hi - 2 * lo * lo) * frac), s=1)
        return dict(k="square", a=ox, b=oy, c=int(lo + (hi - lo) * frac), s=1)
    return Plane(rng, quads, xy), ring


def part(p, funs, i):
    """as in Refine.tla; used here only to keep away from what the check does not decide"""
    for k, f in enumerate(funs):
        ins = frozenset(q for q, (x, y) in enumerate(p.corners(i)) if value(f, x, y) <= 0)
        if len(ins) == 4:
            return (0, k, ins)
        if ins:
            return (1, k, ins)
    return (0, len(funs), frozenset())


ENDS = [(0, 1), (1, 3), (3, 2), (2, 0)]     # corners of the edges, storage order


def convex(p):
    for i in range(len(p.quads)):
        r = [np.array(p.xy[k]) for k in p.quads[i]]
        for j in range(4):
            a, b = r[(j + 1) % 4] - r[j], r[(j + 2) % 4] - r[(j + 1) % 4]
            if a[0] * b[1] - a[1] * b[0] < 12:
                return False
    return True


def decided(p, funs, high):
    """split cells meet others of the same line only along cut edges, and the layers match along every edge"""
    parts = [part(p, funs, i) for i in range(len(p.quads))]
    if any(t == 1 and ins not in [frozenset(e) for e in ENDS] for t, _, ins in parts):
        return True        # must be refused
    def profile(i, j):
        t, k, ins = parts[i]
        if t == 0:
            return 2 ** abs(k - high)
        n = len(ins & set(ENDS[j]))
        if n == 1:
            return ("cut", k, tuple(sorted(p.corners(i)[q] for q in ins & set(ENDS[j]))))
        fine = 2 ** (high - k - 1) if k < high else 2 ** (k - high)
        return fine if (n == 2) == (k >= high) else 2 * fine
    for i in range(len(p.quads)):
        for j in range(4):
            nb = p.across(i, j)
            if nb is None:
                continue
            a, b = profile(i, j), profile(*nb[1])
            if nb[0] == "P":
                if parts[i][:2] != parts[nb[1][0]][:2] or (parts[i][0] == 1 and not isinstance(a, tuple)):
                    return False
                a = a[:2] if isinstance(a, tuple) else a
                b = b[:2] if isinstance(b, tuple) else b
            if a != b:
                return False
            if nb[0] == "E" and parts[i][0] == 1 and parts[i][:2] == parts[nb[1][0]][:2] and not isinstance(a, tuple):
                return False
    return True


def middle(e, j, ends):
    """middle of a curved edge"""
    a, b = ends
    t = str(e.ccurv[j])
    if t == "m":
        return [float(x) for x in e.curv[j][:3]]
    m = [(a[c] + b[c]) / 2 for c in range(3)]
    if t == "C":
        R = float(e.curv[j][0])
        dx, dy = b[0] - a[0], b[1] - a[1]
        L = math.hypot(dx, dy)
        s = abs(R) - math.sqrt(max(0.0, R * R - L * L / 4))
        s = math.copysign(s, R)
        m[0] += s * dy / L
        m[1] -= s * dx / L
    elif t != "":
        return [float(x) + 0.123 for x in e.curv[j][:3]]
    return m


def aids(d, u):
    """which faces have the same corners; the middles of the edges"""
    face, twin, bend = {}, [], []
    keys = []
    for i, e in enumerate(d.elem):
        p = list(zip(*[meshes.qarr(c, u) for c in np.asarray(e.pos)]))
        row = [frozenset(p[c] for c in meshes.FACES3[k]) for k in range(6)]
        keys.append(row)
        for k, s in enumerate(row):
            face.setdefault(s, []).append([i + 1, k + 1])
        q = [[float(c) / u for c in x] for x in zip(*[np.asarray(c, dtype=float).ravel() for c in e.pos])]
        b = []
        for j, (x, y) in enumerate(meshes.EDGES3):
            m = middle(e, j, (np.array(q[x]) * u, np.array(q[y]) * u))
            b.append([int(math.floor(16 * v / u + 0.3719)) if abs(v / u) < 1e6 else 10 ** 8 for v in m])
        bend.append(b)
    for i, row in enumerate(keys):
        t = []
        for k, s in enumerate(row):
            o = face[s]
            t.append([] if len(o) != 2 else o[0] if o[1] == [i + 1, k + 1] else o[1])
        twin.append(t)
    return twin, bend


def sample(rng, t):
    """a plane mesh and splitting functions"""
    while True:
        nsplit = rng.choice([1, 1, 1, 2, 2])
        frac = lambda: rng.choice([0, 0.3, 0.5, 0.7])     # noqa: E731
        if rng.random() < 0.65:
            nx, ny = rng.randint(nsplit, 5), rng.randint(1, 3)
            wrap = rng.random() < 0.35
            p, line = grid(rng, nx, ny, wrap)
            if not p.quads or nx < nsplit:
                continue
            funs = [line(c, frac()) for c in sorted(rng.sample(range(nx), nsplit))]
        else:
            n, layers = rng.randint(1, 2), rng.randint(nsplit, 3)
            p, ring = rings(rng, n, layers)
            disc = rng.random() < 0.5
            if disc and n == 2 and layers > 2:
                disc = False
            funs = [ring(c, frac(), disc) for c in sorted(rng.sample(range(layers), nsplit))]
        if rng.random() < 0.4:
            funs = [dict(f, s=-1) for f in reversed(funs)]
        r = rng.random()
        if r < 0.06:
            k = rng.randrange(nsplit)
            x, y = (sum(c) // 4 for c in zip(*p.corners(0)))
            funs[k] = rng.choice([dict(k="saddle", a=x, b=y, c=0, s=rng.choice([1, -1])),
                                  dict(k="line", a=1, b=1, c=x + y + 1, s=1), dict(k="line", a=2, b=-1, c=2 * x - y + 1, s=1),
                                  dict(k="disc", a=x, b=y, c=90, s=1)])
        elif r < 0.1:
            funs = []
        high = rng.randint(0, len(funs))
        if convex(p) and decided(p, funs, high):
            return p, funs, high


def refine_traces(ctx, n, big=False):
    import pymech.core as pc
    import pymech.meshtools as mt

    rng, out = ctx.rng, []
    for t in range(n):
        ev, keep = [], {}
        u = rng.choice(UNITS)
        p, funs, high = sample(rng, t)
        direct = False
        if len(funs) == 1 and rng.random() < 0.3:      # the split cells alone
            q = p.only([i for i in range(len(p.quads)) if part(p, funs, i)[0] == 1 or rng.random() < 0.01])
            if q.quads and decided(q, funs, 0):
                p, high, direct = q, 0, True
        nbc = rng.choice([1, 1, 2, 3, 0])
        ib = rng.random() < 0.75
        curved = rng.choice([0, 0, 0.4, 0.8])
        d = p.mesh(pc.HexaData, u, nbc, ib or (rng.random() < 0.5 and not direct), rng.choice([0, 0, 0.2]), curved, rng.choice(["m", "mC", "C"]))
        need = max([4 * (2 ** (high - k - 1) if k < high else 2 ** (k - high)) for k in range(len(funs))] or [1])
        nz = need * (2 if len(p.quads) * need <= 60 and rng.random() < 0.35 else 1)
        r = rng.random()
        if r < 0.07:
            nz = max(1, rng.choice([need // 2, need + need // 2, need + 1, need + 2]))
        elif r < 0.09:
            d.lr1 = [3, 3, 1]
        elif r < 0.11:
            d.var = [0, 2, 1, 0, 0]
        z = [2 * rng.randint(-5, 5)]
        gaps = rng.choice([[2], [2, 4, 6], [1, 2, 3]])
        for _ in range(nz):
            z.append(z[-1] + rng.choice(gaps))
        b1, b2 = meshes.random_ends(rng, nbc)
        by_par = rng.random() < 0.5
        fs = [function(f, u, by_par) for f in funs]
        pars = [x[1] for x in fs]
        if not by_par and rng.random() < 0.6:
            pars = None
        elif funs and rng.random() < 0.04:
            pars = rng.choice([pars + [0.0], pars[:-1]])
        fl = [x[0] for x in fs]
        keep["a"] = d
        form = rng.choice([list, np.array, tuple])
        zz = form([x * u for x in z])
        mids = []
        for e in d.elem:
            q = list(zip(*[np.asarray(c, dtype=float).ravel() for c in e.pos]))
            mids.append([[meshes.near_int(c / u) for c in middle(e, j, (np.array(q[x]), np.array(q[y])))[:2]]
                         for j, (x, y) in enumerate(meshes.EDGES2)])
        straight = not any(str(c) for i, e in enumerate(d.elem) for c in e.ccurv[:4] if part(p, funs, i)[0] == 1)
        for again in range(2 if rng.random() < 0.3 else 1):
            if again:        # its result was changed by its owner; one argument may be another now
                if "b" in keep and keep["b"].elem:
                    x = rng.choice(keep["b"].elem)
                    x.pos[1] += u
                    x.curv[0, 0] += u
                    x.ccurv[8] = "m"
                    if nbc:
                        x.bcs[0, 5][0] = "Q"
                i = rng.randrange(4)
                if i == 0:
                    b1, b2 = meshes.random_ends(rng, nbc)
                elif i == 1:
                    z = [v + 2 for v in z]
                elif i == 2:
                    z = z[:-1] + [z[-1] + 6]
                zz = form([x * u for x in z])
            keep = dict(a=d)
            kw = {}
            if b1 is not None:
                kw["bc1"] = list(b1)
            if b2 is not None:
                kw["bc2"] = list(b2)
            if funs or rng.random() < 0.5:
                kw["fun"] = list(fl)
            if pars is not None:
                kw["funpar"] = list(pars)
            if high or rng.random() < 0.5:
                kw["imesh_high"] = high
            if not ib or rng.random() < 0.5:
                kw["internal_bcs"] = ib
            run = mt.extrude_refine
            if direct:
                run, pars = mt.extrude_mid, [x[1] for x in fs]
                kw = dict(bc1=list(b1) if b1 is not None else ["P"] * nbc, bc2=list(b2) if b2 is not None else ["P"] * nbc,
                          fun=fl[0], internal_bcs=ib)
                if by_par:
                    kw["funpar"] = pars[0]
            kw0 = {k: copy.copy(v) for k, v in kw.items()}
            e = dict(op="refine", direct=direct, m2=meshes.safe_project(d, u), z=z, b1=b1 if b1 is not None else ["-"],
                     b2=b2 if b2 is not None else ["-"], ib=ib, funs=funs, npar=len(pars) if pars is not None else len(funs),
                     high=high, mids=mids, straight=straight, shared=[], twin=[], bend=[], post={}, unit=u)
            before = safe_digest(d)
            st, r3 = call(run, d, zz, timeout=60, **kw)
            e["st"], e["err"] = st, r3 if st != "ok" else ""
            e["same"] = kw == kw0 and list(zz) == [x * u for x in z] and safe_digest(d) == before
            if st == "ok":
                keep["b"] = r3
                e["shared"] = meshes.storage(keep)
                e["post"] = meshes.safe_project(r3, u)
                try:
                    e["twin"], e["bend"] = aids(r3, u)
                except Exception as x:  # noqa: BLE001
                    e["st"], e["err"] = "err", f"not a mesh: {x!r}"
            ev.append(e)
        out.append(dict(id=f"c16-{t}", ev=ev))
    return out
