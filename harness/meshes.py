"""Driver for operations on meshes of linear elements."""
import copy
import math
import os
import shutil
from itertools import permutations, product

import numpy as np

from . import core
from .core import call
from .fields import HELD, World, as_int, as_ints, frozen, relayout, safe_digest

BADV = 999999937
FACES2 = [(0, 1), (1, 3), (2, 3), (0, 2), (0, 1, 2, 3), (0, 1, 2, 3)]
FACES3 = [(0, 1, 4, 5), (1, 3, 5, 7), (2, 3, 6, 7), (0, 2, 4, 6), (0, 1, 2, 3), (4, 5, 6, 7)]
EDGES2 = [(0, 1), (1, 3), (3, 2), (2, 0)]
EDGES3 = EDGES2 + [(4, 5), (5, 7), (7, 6), (6, 4), (0, 4), (1, 5), (3, 7), (2, 6)]
TRIPLES = [(3, 4, 5), (5, 12, 13), (8, 15, 17), (20, 21, 29)]


def near_int(x):
    try:
        r = round(float(x))
        if abs(float(x) - r) <= 1e-6 and abs(r) < 2 ** 30:
            return int(r)
    except Exception:  # noqa: BLE001
        pass
    return BADV


def qarr(a, unit):
    a = np.asarray(a, dtype=np.float64).ravel() / unit
    return [near_int(x) for x in a.tolist()]


def project(d, unit):
    el = []
    for e in d.elem:
        pos = [qarr(c, unit) for c in np.asarray(e.pos)]
        cv = [[str(e.ccurv[i])] + qarr(e.curv[i], unit) for i in range(12)]
        bc = [[[str(c[0]), int(c[1]), int(c[2])] + [near_int(c[j]) for j in range(3, 8)] for c in row] for row in e.bcs]
        el.append(dict(pos=pos, cv=cv, bc=bc))
    return dict(ndim=as_int(d.ndim), nel=as_int(d.nel), lr1=as_ints(d.lr1), nv=as_ints(d.var), nbc=as_int(d.nbc),
                ncurv=as_int(d.ncurv), elmap=as_ints(d.elmap), el=el)


def safe_project(d, unit):
    try:
        return project(d, unit)
    except Exception:  # noqa: BLE001
        return dict(ndim=-1, nel=-1, lr1=[], nv=[], nbc=-1, ncurv=-1, elmap=[], el=[])


def storage(regs):
    """Places that share storage: elements of one mesh, or different meshes."""
    spans, ids = [], {}
    out = []

    def own(o, label):
        if isinstance(o, np.ndarray):
            if o.nbytes:
                lo, hi = np.lib.array_utils.byte_bounds(o)
                spans.append((lo, hi, label))
        elif isinstance(o, (list, dict)) or hasattr(o, "__dict__"):
            if id(o) in ids and ids[id(o)] != label:
                out.append(f"{ids[id(o)]}~{label}")
            ids[id(o)] = label

    for r, d in regs.items():
        own(d, r)
        for k in ("elem", "elmap", "lr1", "var"):
            own(getattr(d, k, None), f"{r}.{k}")
        for i, e in enumerate(d.elem):
            own(e, f"{r}.{i}")
            for k in HELD:
                own(getattr(e, k, None), f"{r}.{i}.{k}")
    spans.sort()
    end, lab = -1, ""
    for lo, hi, label in spans:
        if lo < end and label != lab:
            out.append(f"{lab}~{label}")
        if hi > end:
            end, lab = hi, label
    return out[:5]


class MeshOps(World):
    """A world of meshes; `unit` is the length of one lattice step."""

    module = "Trace_Mesh"

    def __init__(self, ctx, unit, tid, track=True):
        import pymech.meshtools as mt

        super().__init__(ctx, None, tid)
        self.mt, self.unit, self.track = mt, unit, track

    def _snap(self):
        return ({k: safe_digest(d) for k, d in self.reg.items()} if self.track else {}), {}

    def _run(self, ev, fn, *args, into=None, **kw):
        """into: register whose state is to be recorded (the result goes there when it is a mesh)"""
        if self.dead:
            return None, None
        st, val = self._do(ev, fn, *args, **kw)
        ev["err"] = ev.pop("exc") or ""
        ev.pop("chgf", None)
        if st == "ok" and into is not None:
            if isinstance(val, self.HexaData):
                self.reg[into] = val
            if into in self.reg:
                ev["post"] = safe_project(self.reg[into], self.unit)
        ev["ret"] = near_int(val) if isinstance(val, (int, np.integer, bool, np.bool_)) else -7
        ev["shared"] = storage(self.reg) if self.track else []
        return st, val

    def has(self, *rs):
        return not self.dead and all(r in self.reg for r in rs)

    # ---- arguments of tolerance operations must not decide a tie
    def lattice(self, r):
        d = self.reg[r]
        m = project(d, self.unit)
        nd = m["ndim"]
        F, E = (FACES2, EDGES2) if nd == 2 else (FACES3, EDGES3)
        fc, sc = [], []
        for e in m["el"]:
            p = np.array(e["pos"], dtype=np.int64)
            fc.append([[int(sum(p[c, i] for i in F[k])) * (4 // len(F[k])) for c in range(3)] for k in range(2 * nd)])
            sc.append(min(int(((p[:, a] - p[:, b]) ** 2).sum()) for a, b in E))
        return fc, sc

    def decidable(self, rs, num, den):
        fc, sc = [], []
        for r in rs:
            f, s = self.lattice(r)
            fc += f
            sc += s
        if not fc:
            return True
        if max(sc) * 16 * num * num >= 2 ** 31 or any(abs(v) >= 10 ** 5 for f in fc for c in f for v in c):
            return False
        if num == 0 and math.frexp(self.unit)[0] != 0.5:
            return False
        nf = len(fc[0])
        a = np.array(fc, dtype=np.int64).reshape(-1, 3)
        s = np.repeat(np.array(sc, dtype=np.int64), nf)
        d = ((a[:, None, :] - a[None, :, :]) ** 2).sum(-1)
        e = np.minimum(s[:, None], s[None, :])
        tie = d * den * den == 16 * num * num * e
        if num == 0:
            return True
        return not tie.any()

    # ---- events
    def new(self, r, d):
        self.reg[r] = d
        self.ev.append(dict(op="new", r=r, st="ok", post=safe_project(d, self.unit)))

    def poke(self, r, rng):
        """change something in a mesh by hand"""
        if not self.has(r):
            return
        d = self.reg[r]
        u = self.unit

        def go():
            k = rng.choice(["pos", "curv", "ccurv", "bcs", "elmap", "lr1", "var", "nel"])
            if not d.elem:
                k = "var"
            e = rng.choice(d.elem) if d.elem else None
            if k == "pos":
                e.pos[0] += 2 * u
            elif k == "curv":
                e.curv[:, 1] += 4 * u
            elif k == "ccurv":
                i = rng.randrange(4)
                if e.ccurv[i] == "":
                    d.ncurv += 1
                e.ccurv[i] = "m"
            elif k == "bcs" and e.bcs.size:
                e.bcs[0, 0][6] += 3
            elif k == "elmap":
                d.elmap[:] = d.elmap[::-1].copy()
            elif k == "lr1" and isinstance(d.lr1, list):
                d.lr1[0] = d.lr1[0]
            elif k == "var" and isinstance(d.var, list):
                d.var[2] = d.var[2] + 5

        self._run(dict(op="poke", r=r), go, into=r)

    def hand(self, r, rng, kinds=("scale", "squash", "move", "one", "fresh", "tag", "list")):
        """a mesh changed by its owner between two calls: the same object in another state"""
        if not self.has(r) or not self.reg[r].elem:
            return
        d, u = self.reg[r], self.unit
        k = rng.choice(kinds)
        nd = d.ndim
        big = bound(d, u)
        e = rng.choice(d.elem)
        if k == "scale" and big < 3000:
            f = rng.choice([2, 3, -1])
            for x in d.elem:
                x.pos[...] *= f
                for j in range(12):
                    if x.ccurv[j] == "m":
                        x.curv[j, :3] *= f
                    elif x.ccurv[j] == "C":
                        x.curv[j, 0] *= abs(f)
                    elif x.ccurv[j] == "s":
                        x.curv[j, :3] *= f
                        x.curv[j, 4] *= abs(f)
        elif k == "squash" and all(v % 8 == 0 for x in d.elem for v in qarr(x.pos[0], u)):
            for x in d.elem:
                x.pos[0] = np.array([v // 4 for v in qarr(x.pos[0], u)]).reshape(x.pos[0].shape) * u
                for j in range(12):
                    x.ccurv[j] = ""
            d.update_ncurv()
        elif k == "move":
            displace(d, u, [2 * rng.randint(-9, 9) for _ in range(3)])
        elif k == "one":
            displace(d, u, [2 * rng.randint(-3, 3) for _ in range(3)], [rng.randrange(d.nel)])
        elif k == "fresh":
            e.pos = np.array(e.pos) + 0.0
            e.pos[rng.randrange(nd)] += 2 * rng.randint(-2, 2) * u
        elif k == "tag" and e.bcs.size:
            b, f = rng.randrange(e.bcs.shape[0]), rng.randrange(2 * nd)
            if e.bcs[b, f][0] not in ("E", "P"):
                e.bcs[b, f][0] = rng.choice(EXT)
        elif k == "list":
            d.elem = list(d.elem)
        self.new(r, d)

    def copy(self, a, r):
        if self.has(a):
            self._run(dict(op="copy", r=r, a=a), copy.deepcopy, self.reg[a], into=r)

    def box(self, r, nx, ny, x0, x1, y0, y1, nv=None, bcs=(None,) * 4, ib=True, plain=False):
        ev = dict(op="box", r=r, nx=nx, ny=ny, x0=x0, x1=x1, y0=y0, y1=y1, nv=nv or [2, 2, 1, 0, 0],
                  bcs=[list(b) if b is not None else [] for b in bcs], ib=ib)
        kw = {}
        arg = None
        if nv is not None:
            arg = kw["var"] = list(nv)
        given = {}
        for k, b in zip(("bcs_xmin", "bcs_xmax", "bcs_ymin", "bcs_ymax"), bcs):
            if b is not None:
                given[k] = kw[k] = list(b)
        if not plain:
            kw["internal_bcs"] = ib
        u = self.unit

        def go():
            d = self.mt.gen_box(nx, ny, x0 * u, x1 * u, y0 * u, y1 * u, **kw)
            # what the caller does to its own lists afterwards is its own business
            if arg is not None:
                arg[1] += 9
                arg.append(1)
            for b in given.values():
                b.append("Z")
            return d
        return self._run(ev, go, into=r)[0]

    def merge(self, r, b, num=1, den=100, ie=True, ia=False, plain=False):
        if not self.has(r, b):
            return
        if self.reg[r].ndim == self.reg[b].ndim and not self.decidable([r, b], num, den):
            return
        kw = {} if plain else dict(tol=num / den, ignore_empty=ie, ignore_all_bcs=ia)
        ev = dict(op="merge", r=r, b=b, num=num, den=den, ie=ie, ia=ia)
        self._run(ev, self.reg[r].merge, self.reg[b], into=r, **kw)

    def genint(self, r, num=1, den=1000, plain=False):
        if self.has(r) and self.decidable([r], num, den):
            kw = {} if plain else dict(tol=num / den)
            self._run(dict(op="genint", r=r, num=num, den=den), self.mt.generate_internal_bcs, self.reg[r], into=r, **kw)

    def delint(self, r):
        if self.has(r):
            self._run(dict(op="delint", r=r), self.mt.delete_internal_bcs, self.reg[r], into=r)

    def keep(self, r, els, ext="", form=list):
        if self.has(r):
            arg = form(els)
            kw = {} if ext == "" else dict(external_bc=ext)
            self._run(dict(op="keep", r=r, els=list(els), ext=ext), self.mt.keep_elements, self.reg[r], arg, into=r, **kw)

    def shift(self, r, off, mn=0):
        if self.has(r):
            kw = {} if mn == 0 else dict(iel_min=mn)
            self._run(dict(op="shift", r=r, off=off, min=mn), self.reg[r].offset_connectivity, off, into=r, **kw)

    def extrude(self, a, r, z, b1=None, b2=None, ib=True, form=list, plain=False):
        if not self.has(a):
            return
        ev = dict(op="extrude", a=a, r=r, z=list(z), b1=list(b1) if b1 is not None else ["-"],
                  b2=list(b2) if b2 is not None else ["-"], ib=ib)
        kw = {}
        if b1 is not None:
            kw["bc1"] = list(b1)
        if b2 is not None:
            kw["bc2"] = list(b2)
        if not plain:
            kw["internal_bcs"] = ib
        zz = form([x * self.unit for x in z])

        def go():
            d = self.mt.extrude(self.reg[a], zz, **kw)
            for k in ("bc1", "bc2"):
                if kw.get(k):
                    kw[k][0] = "Z"
            return d
        self._run(ev, go, into=r)

    def map(self, a, r, t, cu=True, bo=True, plain=False):
        if not self.has(a):
            return
        u = self.unit
        T = dict(k="affine", a=0, b=0, c=0, d=0, e=0, f=0)
        T.update(t)

        def fun(x, y):
            if T["k"] == "affine":
                return T["a"] * x + T["b"] * y + T["e"] * u, T["c"] * x + T["d"] * y + T["f"] * u
            if T["k"] == "quad":
                return x + T["a"] * (y / u) ** 2 * u, y
            return x, y + (T["a"] * (x / u) ** 3 + T["b"] * (x / u)) * u

        kw = {} if plain else dict(curvature=cu, boundary_curvature=bo)
        self._run(dict(op="map", a=a, r=r, t=T, cu=cu, bo=bo), self.mt.map2D, self.reg[a], fun, into=r, **kw)

    def rotate(self, r, c, s, d, x0, y0):
        if self.has(r):
            self._run(dict(op="rotate", r=r, c=c, s=s, d=d, x0=x0, y0=y0), self.mt.rotate_2d, self.reg[r],
                      x0 * self.unit, y0 * self.unit, math.atan2(s, c), into=r)

    def update(self, r):
        if self.has(r):
            self._run(dict(op="update", r=r), self.reg[r].update_ncurv, into=r)

    def reload(self, a, r, kind):
        if not self.has(a):
            return
        if kind == "rea" and not printable(self.reg[a]):
            kind = "re2"
        f = self.fn(f"x{len(self.ev)}.{kind}")
        w = getattr(self.nek, "write" + kind)
        rd = getattr(self.nek, "read" + kind)

        def go():
            w(f, self.reg[a])
            d = rd(f)
            os.unlink(f)
            return d
        self._run(dict(op="reload", a=a, r=r, kind=kind), go, into=r)

    def adopt(self, r, what, fn, *args, **kw):
        if not self.dead:
            self._run(dict(op="adopt", r=r, what=what), fn, *args, into=r, **kw)

    def check(self, r, num=1, den=1000, plain=False):
        if self.has(r) and self.decidable([r], num, den):
            kw = {} if plain else dict(tol=num / den)
            self._run(dict(op="check", r=r, num=num, den=den), self.reg[r].check_connectivity, **kw)

    def present(self, r):
        if self.has(r):
            self._run(dict(op="present", r=r), self.reg[r].check_bcs_present)

    def geometry(self, r):
        if not self.has(r):
            return
        d, u = self.reg[r], self.unit
        ev = dict(op="geometry", r=r)

        def go():
            n = 4 if d.ndim == 2 else 8
            ev["fc"] = [[qarr(np.array(e.face_center(k)) * 4, u) for k in range(6)] for e in d.elem]
            ev["ce"] = [qarr(np.array(e.centroid) * n, u) for e in d.elem]
            ev["se"] = [near_int((e.smallest_edge() / u) ** 2) for e in d.elem]
            ev["pts"] = [[qarr(p, u) for p in x] for x in d.get_points()]
            ev["lims"], ev["fixed"] = [], True
            if d.elem:
                L = d.lims
                ev["lims"] = [qarr(c, u) for c in L.pos]
                ev["fixed"] = frozen(L, ("pos", "vel", "pres", "temp", "scal", "other"))
                if [qarr(c, u) for c in d.lims.pos] != ev["lims"]:
                    ev["fixed"] = False
        self._run(ev, go)

    def edges(self, r, circles=()):
        """middles of all edges; circles: (element, edge, point) to be joined with the ends of the edge"""
        if not self.has(r):
            return
        d, u = self.reg[r], self.unit
        ev = dict(op="edges", r=r, circ=[])

        def go():
            n = 4 if d.ndim == 2 else 12
            ev["mids"] = [[qarr(np.array(self.mt.edge_mid(e, j)) * 2, u) for j in range(n)] for e in d.elem]
            for i, j, m in circles:
                cv = self.mt.edge_circle(d.elem[i], j, np.array(m) * u)
                ev["circ"].append(dict(i=i + 1, j=j + 1, m=list(m), cv=qarr(np.array(cv), u)))
        self._run(ev, go)

    def trace(self):
        shutil.rmtree(self.dir, ignore_errors=True)
        return dict(id=str(self.tid), ev=self.ev)


# ------------------------------------------------------------------ meshes to start from
EXT = ["W", "v", "O", "SYM", "int", "sl", "t", "f", "A", "on", "ws", "MSI"]


class Grid:
    """A block of cells with known neighbours, from which meshes are made independently of the library."""

    def __init__(self, rng, ndim=2, n=None, step=None, jitter=0, drop=0.0, origin=None, even=True):
        self.ndim = ndim
        n = n or [rng.randint(1, 3) for _ in range(ndim)]
        step = step or [8, 12, 20, 32, 48, 100]
        self.ax = []
        for a in range(ndim):
            x = [origin[a] if origin else 2 * rng.randint(-30, 30)]
            for _ in range(n[a]):
                x.append(x[-1] + rng.choice(step))
            self.ax.append(x)
        self.n = n
        self.jit = {}
        self.rng, self.jitter = rng, jitter
        cells = list(product(*(range(k) for k in n)))
        if drop:
            cells = [c for c in cells if rng.random() > drop] or cells[:1]
        rng.shuffle(cells)
        self.cells = cells
        self.idx = {c: i for i, c in enumerate(cells)}

    def vertex(self, v):
        if v not in self.jit:
            self.jit[v] = [2 * self.rng.randint(-self.jitter, self.jitter) if self.jitter else 0 for _ in range(self.ndim)]
        return [self.ax[a][v[a]] + self.jit[v][a] for a in range(self.ndim)]

    DIRS = [(1, -1), (0, 1), (1, 1), (0, -1), (2, -1), (2, 1)]
    OPP = [2, 3, 0, 1, 5, 4]

    def neighbour(self, c, k, periodic=()):
        a, s = self.DIRS[k]
        t = list(c)
        t[a] += s
        if a in periodic and tuple(t) not in self.idx:
            # the far end of the row
            t = list(c)
            while True:
                u = list(t)
                u[a] -= s
                if tuple(u) not in self.idx:
                    break
                t = u
            return ("P", self.idx[tuple(t)])
        return ("E", self.idx[tuple(t)]) if tuple(t) in self.idx else None

    def mesh(self, HexaData, unit, nbc=1, internal=True, periodic=(), ext=EXT, empty=0.0, own=0.8, params=0.3,
             nv=None, lr1=None):
        rng, nd = self.rng, self.ndim
        nv = list(nv or [nd, rng.choice([0, nd]), rng.choice([0, 1]), rng.choice([0, 1]), rng.choice([0, 1, 2])])
        d = HexaData(nd, len(self.cells), list(lr1 or [2, 2, nd - 1]), nv, nbc)
        for i, c in enumerate(self.cells):
            e = d.elem[i]
            for v in product((0, 1), repeat=nd):
                p = self.vertex(tuple(c[a] + v[a] for a in range(nd)))
                for a in range(nd):
                    e.pos[(a, v[2] if nd == 3 else 0, v[1], v[0])] = p[a] * unit
            for k in range(2 * nd):
                nb = self.neighbour(c, k, periodic)
                blank = nb is None and rng.random() < empty
                for b in range(nbc):
                    cell = e.bcs[b, k]
                    if nb is None:
                        if blank:
                            continue
                        cell[0] = rng.choice(ext)
                        if rng.random() < params:
                            for j in range(3, 8):
                                cell[j] = rng.randint(-3, 9)
                    elif nb[0] == "E" and not internal:
                        continue
                    else:
                        cell[0], cell[3], cell[4] = nb[0], nb[1] + 1, self.OPP[k] + 1
                        if rng.random() < params / 2:
                            for j in range(5, 8):
                                cell[j] = rng.randint(-3, 9)
                    if rng.random() < own:
                        cell[1], cell[2] = i + 1, k + 1
        m = list(range(1, len(self.cells) + 1))
        if rng.random() < 0.5:
            rng.shuffle(m)
        d.elmap = np.array(m, dtype=np.int32)
        if rng.random() < 0.5:
            twist(rng, d)
        sealed(rng, d)
        return d


def sealed(rng, d):
    """numbers of points and variables as tuples, the way readnek gives them; arrays of any layout"""
    if rng.random() < 0.2:
        d.lr1, d.var = tuple(d.lr1), tuple(d.var)
    if rng.random() < 0.2:
        relayout(d, rng, ("pos",))


def frames(nd):
    """the right-handed ways to number the corners of an element: (axis, reversed) for each local axis"""
    for axes in permutations(range(nd)):
        for flip in product((0, 1), repeat=nd):
            inv = sum(axes[i] > axes[j] for i in range(nd) for j in range(i + 1, nd))
            if (inv + sum(flip)) % 2 == 0:
                yield list(zip(axes, flip))


FRAMES = {nd: list(frames(nd)) for nd in (2, 3)}


def twist(rng, d):
    """Renumber the corners of every element, so that neighbours meet at faces of any number.

    For meshes without curvature: the faces, and what other elements say about them, go along."""
    nd = d.ndim
    of = [{} for _ in d.elem]        # number of each face in the new frame
    for i, e in enumerate(d.elem):
        f = rng.choice(FRAMES[nd])
        pos = e.pos.copy()
        for v in product((0, 1), repeat=nd):
            o = [0, 0, 0]
            for a in range(nd):
                o[f[a][0]] = v[a] ^ f[a][1]
            n = list(v) + [0] * (3 - nd)
            e.pos[:, n[2], n[1], n[0]] = pos[:, o[2], o[1], o[0]]
        rows = e.bcs.copy()
        for k in range(2 * nd):
            a, s = Grid.DIRS[k]
            o = Grid.DIRS.index((f[a][0], -s if f[a][1] else s))
            of[i][o + 1] = k + 1
            for b in range(len(rows)):
                e.bcs[b, k] = rows[b, o]
                if e.bcs[b, k][2]:
                    e.bcs[b, k][2] = k + 1
    for e in d.elem:
        for row in e.bcs:
            for c in row:
                if c[0] in ("E", "P") and 1 <= c[3] <= len(of):
                    c[4] = of[int(c[3]) - 1].get(int(c[4]), c[4])


def curve(rng, d, unit, dense=0.5, kinds="mC", edges=None):
    """give some edges a curvature whose midpoint is on the lattice"""
    edges = edges or (4 if d.ndim == 2 else 12)
    for e in d.elem:
        p = np.array([qarr(c, unit) for c in e.pos])
        for j in range(edges):
            if rng.random() > dense:
                continue
            a, b = (EDGES2 if d.ndim == 2 else EDGES3)[j]
            kind = rng.choice(kinds)
            if kind == "m":
                e.curv[j, :3] = [((p[c, a] + p[c, b]) // 2 + rng.randint(-3, 3)) * unit for c in range(d.ndim)] + [0.0] * (3 - d.ndim)
            elif kind == "s":
                v = sphere(rng, p, a, b, d.ndim)
                if v is None:
                    continue
                e.curv[j] = np.array(v) * unit
            elif kind == "C":
                R = circle_radius(rng, p[:2, a], p[:2, b]) if j < 8 else None
                if R is None:
                    continue
                e.curv[j, 0] = R * unit
            else:
                e.curv[j] = [rng.randint(-9, 9) * unit for _ in range(5)]
            e.ccurv[j] = kind
    d.ncurv = sum(c != "" for e in d.elem for c in e.ccurv)
    return d


def circle_radius(rng, a, b):
    """a radius for which the top of the arc over this chord is a lattice point"""
    dx, dy = int(b[0] - a[0]), int(b[1] - a[1])
    L2 = dx * dx + dy * dy
    L = math.isqrt(L2)
    if L * L != L2 or L == 0:
        return None
    opts = []
    for R in range(L // 2 + 1, 3 * L + 1):
        q = 4 * R * R - L2
        h = math.isqrt(q)
        if h * h != q:
            continue
        d2 = 2 * R - h
        if (d2 * dx) % L or (d2 * dy) % L:
            continue
        if (int(a[0] + b[0]) + d2 * dy // L) % 2 or (int(a[1] + b[1]) + d2 * dx // L) % 2:
            continue
        opts.append(R)
    return rng.choice([-1, 1]) * rng.choice(opts) if opts else None


UNITS = [1.0, 0.5, 0.0078125, 0.1, 0.003, 4.0, 2.0 ** -20, 1e-7, 2.0 ** 17, 1e5, 1e-12, 2.0 ** -40, 2.0 ** 40]
TOLS = [(1, 100), (1, 1000), (7, 103), (1, 7), (2, 11), (3, 107), (0, 1)]


def unit(rng):
    return rng.choice(UNITS)


def sub(g, cells, rng):
    """the same lattice with some of the cells"""
    h = copy.copy(g)
    h.rng = rng
    h.cells = list(cells)
    rng.shuffle(h.cells)
    h.idx = {c: i for i, c in enumerate(h.cells)}
    return h


def displace(d, unit, v, elems=None):
    for i, e in enumerate(d.elem):
        if elems is None or i in elems:
            for a in range(d.ndim):
                e.pos[a] += v[a] * unit
                for j in range(12):
                    if e.ccurv[j] in ("m", "s"):
                        e.curv[j, a] += v[a] * unit


# ------------------------------------------------------------------ histories per property
def check_traces(ctx, n):
    rng, out = ctx.rng, []
    for t in range(n):
        u = unit(rng)
        w = MeshOps(ctx, u, f"c11-{t}")
        nd = rng.choice([2, 2, 3])
        nbc = rng.choice([1, 1, 2, 3, 0])
        g = Grid(rng, nd, [rng.randint(1, 3) for _ in range(nd)] if nd == 2 else [rng.randint(1, 2) for _ in range(3)],
                 jitter=rng.choice([0, 1]))
        per = tuple(a for a in range(nd) if rng.random() < 0.3)
        d = g.mesh(w.HexaData, u, nbc, rng.random() < 0.8, per, empty=rng.choice([0, 0, 0.3]))
        w.new("a", d)
        tol = rng.choice(TOLS)
        w.check("a", *tol)
        w.check("a", plain=True)
        w.present("a")
        links = [(i, b, k) for i, e in enumerate(d.elem) for b in range(nbc) for k in range(2 * nd)
                 if e.bcs[b, k][0] in ("E", "P")]
        # a face that nothing is joined to refers to something that is not there, or is joined to something else
        free = [(i, b, k) for i, e in enumerate(d.elem) for b in range(nbc) for k in range(2 * nd)
                if e.bcs[b, k][0] not in ("E", "P")]
        if free:
            i, b, k = rng.choice(free)
            x = copy.deepcopy(d)
            y = rng.choice(("el", "face", "face", "both", "own", "own"))
            c = x.elem[i].bcs[b, k]
            c[0] = rng.choice(("E", "E", "P"))
            c[3] = rng.choice((0, -1, x.nel + 1, 10 ** 6)) if y in ("el", "both") else i + 1 if y == "own" else rng.randint(1, x.nel)
            c[4] = rng.choice((0, -1, 2 * nd + 1, 99)) if y in ("face", "both") else k + 1 if y == "own" else rng.randint(1, 2 * nd)
            w.new("b", x)
            w.check("b", *rng.choice(TOLS))
        for _ in range(rng.randint(2, 4)):
            if not links or w.dead:
                break
            i, b, k = rng.choice(links)
            x = copy.deepcopy(d)
            c = x.elem[i].bcs[b, k]
            kind = rng.choice(["el", "face", "type", "geom", "geom", "geom", "back", "self", "blank", "none", "cross",
                               "cross"])
            if kind == "el":
                c[3] = rng.choice([0, -1, x.nel + 1, x.nel + 1, 10 ** 6, (int(c[3]) % x.nel) + 1])
            elif kind == "face":
                c[4] = rng.choice([0, -1, 5, 6, 7, 99, int(c[4]) % (2 * nd) + 1])
            elif kind == "type":
                c[0] = "P" if c[0] == "E" else "E"
            elif kind == "back":
                y = x.elem[int(c[3]) - 1].bcs[b, int(c[4]) - 1]
                y[0] = rng.choice(EXT + ["P" if y[0] == "E" else "E"])
            elif kind == "self":
                c[3], c[4] = i + 1, k + 1
            elif kind == "blank":
                c[0] = ""
            elif kind == "cross":      # consistent links between other faces, in one field
                same = [(j, l) for j, f, l in links if f == b and x.elem[j].bcs[b, l][0] == c[0] and (j, l) != (i, k)]
                if same:
                    j, l = rng.choice(same)
                    ends = [((i, k), (j, l))]
                    p, q = ((int(x.elem[m].bcs[b, n][3]) - 1, int(x.elem[m].bcs[b, n][4]) - 1) for m, n in ((i, k), (j, l)))
                    if len({(i, k), (j, l), p, q}) in (2, 4):
                        for s, t in ends + [(p, q)]:
                            for (m, n), o in ((s, t), (t, s)):
                                x.elem[m].bcs[b, n][3], x.elem[m].bcs[b, n][4] = o[0] + 1, o[1] + 1
            elif kind == "geom":
                size = rng.choice([1, 1, 2, 3, 6, 14])
                displace(x, u, [2 * rng.randint(-size, size) for _ in range(3)], [i])
                # edges change too, unless the whole element moves
                if rng.random() < 0.3:
                    x.elem[i].pos[rng.randrange(nd)].flat[rng.randrange(2 ** nd)] += 2 * rng.randint(1, 2) * u
            w.new("b", x)
            w.check("b", *rng.choice(TOLS))
            if rng.random() < 0.5:
                w.check("b", *rng.choice(TOLS))
            if rng.random() < 0.3:
                w.check("b", plain=True)
            w.present("b")
        for _ in range(rng.choice([0, 1, 2])):
            w.hand("a", rng)
            w.check("a", *rng.choice(TOLS))
            w.present("a")
        # the same mesh in another size, with an element moved by about the tolerance of that size
        for _ in range(rng.choice([0, 1, 1])):
            if not w.has("a"):
                break
            w.check("a", *rng.choice(TOLS))
            w.hand("a", rng, ("scale", "squash"))
            s = rng.choice([1, 2, 4])
            displace(w.reg["a"], u, [2 * rng.randint(-s, s) for _ in range(3)], [rng.randrange(d.nel)])
            w.new("a", w.reg["a"])
            w.check("a", *rng.choice([(1, 7), (2, 11)]))
        if rng.random() < 0.5 and nbc:
            x = copy.deepcopy(d)
            x.elem[rng.randrange(x.nel)].bcs[rng.randrange(nbc), rng.randrange(6)][0] = ""
            w.new("p", x)
            w.present("p")
        out.append(w.trace())
    return out


def merge_pair(w, rng, nd=None):
    """two meshes that may touch"""
    u = w.unit
    nd = nd or rng.choice([2, 2, 2, 3])
    n = [rng.randint(1, 3) for _ in range(nd)] if nd == 2 else [rng.randint(1, 2) for _ in range(3)]
    ax = rng.randrange(nd)
    n[ax] = rng.randint(2, 4) if nd == 2 else rng.randint(2, 3)
    g = Grid(rng, nd, n, jitter=rng.choice([0, 0, 1]))
    if rng.random() < 0.7:
        c = rng.randint(1, n[ax] - 1)
        A = [x for x in g.cells if x[ax] < c]
        B = [x for x in g.cells if x[ax] >= c]
    else:
        A = [x for x in g.cells if rng.random() < 0.5] or g.cells[:1]
        B = [x for x in g.cells if x not in A] or g.cells[-1:]
        if set(A) & set(B):
            A = [x for x in A if x not in B]
        if not A:
            A, B = B[:1], B[1:] or B[:1]
    nbc = rng.choice([1, 1, 2, 3, 0])
    style = rng.choice(["ext", "ext", "per", "per", "empty", "mixed"])
    per = {"ext": (), "empty": (), "per": (ax,), "mixed": (ax,)}[style]
    other = tuple(a for a in range(nd) if a != ax and rng.random() < 0.3)
    per = tuple(set(per + other))
    ints = rng.random() < 0.75
    emp = {"ext": 0.0, "per": 0.0, "empty": 0.5, "mixed": 0.2}[style]
    ext = EXT + ["con"] * 4
    nv = [nd, rng.choice([0, nd]), rng.choice([0, 1]), rng.choice([0, 1]), rng.choice([0, 1])]
    a = sub(g, A, rng).mesh(w.HexaData, u, nbc, ints, per, ext, emp, nv=nv)
    b = sub(g, B, rng).mesh(w.HexaData, u, nbc, ints, per if style != "mixed" or rng.random() < 0.5 else other, ext, emp,
                            nv=nv)
    if rng.random() < 0.6:
        curve(rng, a, u, 0.3, "m")
        curve(rng, b, u, 0.3, "m")
    return a, b


def default_traces(ctx, op, n):
    """faces that come as close as the tolerance the operation uses when none is given, or not quite"""
    rng, out = ctx.rng, []
    for t in range(n):
        w = MeshOps(ctx, unit(rng), f"{op}-default-{t}")
        near = t % 2
        f = rng.choice([1, 2])
        size = (92, 110)[near] if op == "merge" else (902, 1102)[near]
        nd = 2 + (t // 2) % 2
        ax = rng.randrange(nd)
        k = [1] * nd
        k[ax] = 2
        g = Grid(rng, nd, k, step=[size * f])
        v = [0] * 3
        v[rng.randrange(nd)] = rng.choice([-1, 1]) * f
        if op == "merge":
            a, b = (sub(g, [x for x in g.cells if x[ax] == s], rng).mesh(w.HexaData, w.unit, 1, nv=[nd, 0, 0, 0, 0]) for s in (0, 1))
            displace(b, w.unit, v)
            w.new("a", a)
            w.new("b", b)
            w.merge("a", "b", plain=True)
        else:
            d = g.mesh(w.HexaData, w.unit, 1, op == "check")
            displace(d, w.unit, v, [rng.randrange(2)])
            w.new("a", d)
            (w.check if op == "check" else w.genint)("a", plain=True)
        out.append(w.trace())
    return out


def merge_traces(ctx, n):
    rng, out = ctx.rng, []
    for t in range(n):
        u = unit(rng)
        w = MeshOps(ctx, u, f"c12-{t}")
        a, b = merge_pair(w, rng)
        r = rng.random()
        if r < 0.55:
            displace(b, u, [rng.choice([0, 0, 1, -1, 2, 3, 5]) for _ in range(3)])
        elif r < 0.65:
            displace(b, u, [1000, 0, 0])
        w.new("a", a)
        w.new("b", b)
        kw = {}
        if rng.random() < 0.25:
            w.merge("a", "b", plain=True)
        else:
            if rng.random() < 0.3:
                w.check("a", *rng.choice(TOLS))
                w.check("b", *rng.choice(TOLS))
                w.hand("a", rng)
                w.hand("b", rng)
            w.merge("a", "b", *rng.choice(TOLS), ie=rng.random() < 0.5, ia=rng.random() < 0.12)
            if rng.random() < 0.3:
                w.hand("a", rng)
        # a third mesh, and refusals
        r = rng.random()
        if r < 0.3 and not w.dead and "a" in w.reg and w.reg["a"].nel < 16:
            c = copy.deepcopy(b)
            displace(c, u, [rng.choice([-24, 24, 100]), 0, 0])
            w.new("c", c)
            w.merge("a", "c", *rng.choice(TOLS[:6]), ie=rng.random() < 0.5)
            w.check("a", 1, 7)
        elif r < 0.4:
            c = Grid(rng, 5 - a.ndim, [1] * (5 - a.ndim)).mesh(w.HexaData, u, a.nbc)
            w.new("c", c)
            w.merge("a", "c") if rng.random() < 0.5 else w.merge("c", "a")
        elif r < 0.5:
            c = copy.deepcopy(b)
            c.lr1 = [3, 3, 1 if a.ndim == 2 else 3]
            w.new("c", c)
            w.merge("a", "c")
        # what happens to one mesh later does not show in the other
        w.poke("b", rng)
        w.poke("a", rng)
        out.append(w.trace())
    return out


def internal_traces(ctx, n):
    rng, out = ctx.rng, []
    for t in range(n):
        u = unit(rng)
        w = MeshOps(ctx, u, f"c13-{t}")
        nd = rng.choice([2, 2, 3])
        g = Grid(rng, nd, None if nd == 2 else [rng.randint(1, 2) for _ in range(3)], jitter=rng.choice([0, 0, 1, 2]),
                 drop=rng.choice([0, 0, 0.3]))
        nbc = rng.choice([1, 1, 2, 3, 0])
        d = g.mesh(w.HexaData, u, nbc, rng.random() < 0.4, tuple(a for a in range(nd) if rng.random() < 0.2),
                   empty=rng.choice([0, 0.3, 0.8, 1.0]))
        # disconnect some faces (in every field), on one side or both
        for i, e in enumerate(d.elem):
            for k in range(2 * nd):
                if rng.random() < 0.3 and nbc and e.bcs[0, k][0] in ("E", "P"):
                    for b in range(nbc):
                        e.bcs[b, k] = np.zeros(1, dtype=e.bcs.dtype)[0]
        if rng.random() < 0.3:
            curve(rng, d, u, 0.3)
        if rng.random() < 0.6:
            for i in range(d.nel):
                if rng.random() < 0.4:
                    s = rng.choice([1, 1, 2, 4])
                    displace(d, u, [rng.randint(-s, s) for _ in range(3)], [i])
        if rng.random() < 0.12:
            e = rng.choice(d.elem)
            a, b = rng.choice(EDGES2 if nd == 2 else EDGES3)
            for c in range(3):
                e.pos[c].flat[a] = e.pos[c].flat[b]
        w.new("a", d)
        if rng.random() < 0.3:
            w.genint("a", plain=True)
        else:
            w.genint("a", *rng.choice(TOLS))
        w.check("a", 1, 7)
        if rng.random() < 0.5:
            w.genint("a", *rng.choice(TOLS))
        w.delint("a")
        w.delint("a")
        if rng.random() < 0.5:
            w.hand("a", rng)
            if rng.random() < 0.6 and w.has("a"):
                s = rng.choice([1, 2, 4])
                displace(w.reg["a"], u, [2 * rng.randint(-s, s) for _ in range(3)], [rng.randrange(d.nel)])
                w.new("a", w.reg["a"])
                w.genint("a", *rng.choice(TOLS))
                w.delint("a")
        if rng.random() < 0.5:
            w.genint("a", 1, 7)
        out.append(w.trace())
    return out


def subset_traces(ctx, n):
    rng, out = ctx.rng, []
    for t in range(n):
        u = unit(rng)
        w = MeshOps(ctx, u, f"c14-{t}")
        nd = rng.choice([2, 2, 3])
        n1 = [rng.randint(1, 4) for _ in range(nd)] if nd == 2 else [rng.randint(1, 3) for _ in range(3)]
        g = Grid(rng, nd, n1, drop=rng.choice([0, 0, 0.2]))
        nbc = rng.choice([1, 2, 3, 0])
        d = g.mesh(w.HexaData, u, nbc, rng.random() < 0.85, tuple(a for a in range(nd) if rng.random() < 0.4),
                   empty=rng.choice([0, 0.2]), own=rng.choice([0, 0.8, 1]))
        curve(rng, d, u, rng.choice([0, 0.4]), "mCs")
        w.new("a", d)
        for _ in range(rng.randint(1, 3)):
            if w.dead or "a" not in w.reg:
                break
            nel = w.reg["a"].nel
            r = rng.random()
            if r < 0.7:
                els = [i for i in range(nel) if rng.random() < rng.choice([0.3, 0.7, 0.95])]
                rng.shuffle(els)
                if rng.random() < 0.1:
                    els = els + [nel + rng.choice([0, 0, 3])]
                if not els and rng.random() < 0.7:
                    els = [rng.randrange(nel)] if nel else []
                form = rng.choice([list, list, tuple, np.array]) if els else list
                w.keep("a", els, rng.choice(["", "", "con", "W", "int"]), form)
                if rng.random() < 0.3:
                    w.hand("a", rng)
            else:
                w.shift("a", rng.choice([1, 2, 7, 100, -1]), rng.choice([0, 0, rng.randint(0, max(0, nel - 1)), nel]))
                break
        out.append(w.trace())
    return out


def random_z(rng, n):
    z = [2 * rng.randint(-20, 20)]
    for _ in range(n):
        z.append(z[-1] + 2 * rng.randint(1, 30))
    return z


def random_ends(rng, nbc):
    r = rng.random()
    if r < 0.25:
        return None, None
    if r < 0.35:
        return ["P"] * nbc, None
    b1, b2 = [], []
    for _ in range(nbc):
        if rng.random() < 0.4:
            b1.append("P")
            b2.append("P")
        else:
            b1.append(rng.choice(EXT))
            b2.append(rng.choice(EXT))
    if r > 0.9 and nbc:
        k = rng.randrange(nbc)
        b1[k], b2[k] = rng.choice([("P", "W"), ("v", "P")])
    return b1, b2


def plane_mesh(w, rng, nbc=None, small=False, kinds="mC", nv=None):
    u = w.unit
    g = Grid(rng, 2, [rng.randint(1, 2 if small else 3) for _ in range(2)], jitter=rng.choice([0, 1]), drop=rng.choice([0, 0.2]))
    nbc = rng.choice([1, 1, 2, 3, 0]) if nbc is None else nbc
    d = g.mesh(w.HexaData, u, nbc, rng.random() < 0.8, tuple(a for a in range(2) if rng.random() < 0.3),
               empty=rng.choice([0, 0.2]), own=rng.choice([0.5, 1]), nv=nv)
    return curve(rng, d, u, rng.choice([0, 0.5]), kinds)


def solid_mesh(w, rng, nbc, nv):
    g = Grid(rng, 3, [rng.randint(1, 2) for _ in range(3)], jitter=rng.choice([0, 1]), drop=rng.choice([0, 0.2]))
    d = g.mesh(w.HexaData, w.unit, nbc, rng.random() < 0.8, tuple(a for a in range(3) if rng.random() < 0.3),
               empty=rng.choice([0, 0.2]), own=rng.choice([0.5, 1]), nv=nv)
    return curve(rng, d, w.unit, rng.choice([0, 0.3, 0.8]), rng.choice(["m", "mC"]))


def extrude_traces(ctx, n):
    rng, out = ctx.rng, []
    for t in range(n):
        u = unit(rng)
        w = MeshOps(ctx, u, f"c15-{t}")
        d = plane_mesh(w, rng, kinds=rng.choice(["m", "mC", "mCs"]))
        r = rng.random()
        if r < 0.04:
            d.lr1 = [3, 3, 1]
        elif r < 0.08:
            d.var = [0, 2, 1, 0, 0]
        w.new("a", d)
        nz = rng.choice([1, 1, 2, 3, 4])
        b1, b2 = random_ends(rng, d.nbc)
        w.extrude("a", "b", random_z(rng, nz), b1, b2, rng.random() < 0.65, rng.choice([list, np.array, tuple]),
                  plain=False)
        if "b" in w.reg:
            w.check("b", 1, 100)
            if rng.random() < 0.15:
                w.extrude("b", "c", random_z(rng, 1))
            if rng.random() < 0.3:
                w.extrude("a", "c", random_z(rng, rng.randint(1, 2)), plain=True)
            w.poke("a", rng)
            w.poke("b", rng)
            if rng.random() < 0.4:
                w.hand("a", rng)
                w.hand("b", rng)
                b1, b2 = random_ends(rng, d.nbc)
                w.extrude("a", "c", random_z(rng, nz), b1, b2, rng.random() < 0.65)
        out.append(w.trace())
    return out


def random_box(w, r, rng, nmax=4):
    nx, ny = rng.randint(1, nmax), rng.randint(1, nmax)
    x0, y0 = 2 * rng.randint(-20, 20), 2 * rng.randint(-20, 20)
    x1, y1 = x0 + nx * 2 * rng.randint(1, 20), y0 + ny * 2 * rng.randint(1, 20)
    s = rng.random()
    if s < 0.04:
        x1 = x0
    elif s < 0.08:
        y1 = y0 - 10
    nv = None
    if rng.random() < 0.6:
        nv = [rng.choice([2, 2, 3]), rng.choice([0, 2, 2]), rng.choice([0, 1]), rng.choice([0, 1]), rng.choice([0, 0, 1, 2])]
    k = (nv or [2, 2, 1, 0, 0])
    nbc = (k[1] > 0) + (k[3] > 0) + k[4]
    bcs = []
    for _ in range(4):
        bcs.append(None if rng.random() < 0.4 else [rng.choice(EXT + ["P", "P"]) for _ in range(nbc)])
    args = [nx, ny, x0, x1, y0, y1, nv, bcs, rng.random() < 0.75]
    w.box(r, *args)
    return args


def sibling_boxes(w, args, rng):
    """the same call again after its result was changed, and calls that differ from it in one argument"""
    nx, ny, x0, x1, y0, y1, nv, bcs, ib = args
    nbc = len([b for b in bcs if b is not None] and [b for b in bcs if b is not None][0])
    w.poke("a", rng)
    w.poke("a", rng)
    w.box("b", *args)
    other = list(bcs)
    k = rng.randrange(4)
    other[k] = [rng.choice(EXT + ["P"]) for _ in range(nbc)] if bcs[k] is not None else None
    fields = list(nv) if nv else None
    if fields:
        fields[2] = 1 - fields[2]
    for r in rng.sample([[nx, ny, x0, x1, y0, y1, nv, bcs, not ib], [nx, ny, x0, x1, y0, y1, nv, other, ib],
                         [nx, ny, x0 - 2 * nx, x1, y0, y1, nv, bcs, ib], [nx, ny, x0, x1 + 2 * nx, y0, y1, nv, bcs, ib],
                         [nx, ny, x0, x1, y0 - 2 * ny, y1, nv, bcs, ib], [nx, ny, x0, x1, y0, y1 + 2 * ny, nv, bcs, ib],
                         [nx, ny, x0, x1, y0, y1, fields, bcs, ib]], 3):
        w.box("c", *r)


def box_traces(ctx, n):
    rng, out = ctx.rng, []
    for t in range(n):
        u = unit(rng)
        w = MeshOps(ctx, u, f"c17-{t}")
        args = random_box(w, "a", rng, 5)
        if t % 2 == 0 and len(args[7]) == 4 and args[0] * args[1] <= 12:
            sibling_boxes(w, args, rng)
        elif rng.random() < 0.7:
            w.box("b", 2, 1, 0, 8, 0, 8, plain=True)
            w.poke("b", rng)
            w.poke("a", rng)
            random_box(w, "c", rng, 2)
            w.box("d", 1, 2, 0, 8, 0, 8, plain=True)
        if "a" in w.reg and rng.random() < 0.5:
            random_box(w, "a", rng, 3)
        # every way to be empty or inverted, in every run
        x0, y0, dx, dy = (rng.randint(-20, 20) for _ in range(4))
        dx, dy = [(0, 8), (8, 0), (0, 0), (-8, 8), (8, -8), (-8, -8), (-dx, abs(dy) + 1), (abs(dx) + 1, -dy)][t % 8]
        w.box("e", 1, 1, 2 * x0, 2 * (x0 + dx), 2 * y0, 2 * (y0 + dy))
        out.append(w.trace())
    return out


AFFINE = [dict(a=1, b=0, c=0, d=1), dict(a=2, b=0, c=0, d=1), dict(a=1, b=1, c=0, d=1), dict(a=1, b=0, c=-2, d=1),
          dict(a=0, b=-1, c=1, d=0), dict(a=3, b=1, c=-1, d=2)]


def bound(d, unit):
    v = [abs(x) for e in d.elem for c in e.pos for x in qarr(c, unit)]
    v += [abs(x) for e in d.elem for j in range(12) if e.ccurv[j] for x in qarr(e.curv[j][:2], unit)]
    return max(v, default=0)


def random_map(w, a, r, rng):
    if not w.has(a) or w.reg[a].ndim != 2:
        return
    big = bound(w.reg[a], w.unit)
    opts = ["affine"] if big > 30 else ["affine", "affine", "quad", "quad", "cube"]
    if big > 2000:
        return
    if not resolvable(w.reg[a], w.unit):
        return
    k = rng.choice(opts)
    if k == "affine":
        t = dict(rng.choice(AFFINE), k=k, e=2 * rng.randint(-20, 20), f=2 * rng.randint(-20, 20))
    elif k == "quad":
        t = dict(k=k, a=rng.choice([1, 2]))
    else:
        t = dict(k=k, a=rng.choice([0, 1]) if big < 15 else 0, b=rng.choice([-1, 1, 2]))
    if rng.random() < 0.2:
        w.map(a, r, t, plain=True)
    else:
        w.map(a, r, t, rng.random() < 0.4, rng.random() < 0.5)


def resolvable(d, unit):
    for e in d.elem:
        p = [qarr(c, unit) for c in e.pos]
        for j, (a, b) in enumerate(EDGES2):
            t = e.ccurv[j]
            if t == "m":
                continue
            if t == "s":
                q = qarr(e.curv[j], unit)
                v = [p[c][a] + p[c][b] - 2 * q[c] for c in range(3)]
                L2 = sum(x * x for x in v)
                L = math.isqrt(L2)
                if not L or L * L != L2 or any(2 * q[4] * x % L for x in v) or \
                        any((2 * q[4] * v[c] // L) % 2 for c in range(2)):
                    return False
                continue
            if t not in ("", "C"):
                return False
            if t == "":
                if (p[0][a] + p[0][b]) % 2 or (p[1][a] + p[1][b]) % 2:
                    return False
                continue
            R = abs(near_int(e.curv[j, 0] / unit))
            dx, dy = p[0][b] - p[0][a], p[1][b] - p[1][a]
            L2 = dx * dx + dy * dy
            L = math.isqrt(L2)
            if L * L != L2 or not L or 4 * R * R < L2:
                return False
            h = math.isqrt(4 * R * R - L2)
            d2 = 2 * R - h
            if h * h != 4 * R * R - L2 or (d2 * dx) % L or (d2 * dy) % L:
                return False
            if (p[0][a] + p[0][b] + d2 * dy // L) % 2 or (p[1][a] + p[1][b] + d2 * dx // L) % 2:
                return False
    return True


def random_rotate(w, r, rng):
    if not w.has(r):
        return
    d, u = w.reg[r], w.unit
    pts = [(x, y) for e in d.elem for x, y in zip(qarr(e.pos[0], u), qarr(e.pos[1], u))]
    pts += [tuple(qarr(e.curv[j][:2], u)) for e in d.elem for j in range(12) if e.ccurv[j] in ("m", "s")]
    if any(abs(v) > 3000 for p in pts for v in p):
        return
    for _ in range(4):
        c, s, q = rng.choice([(0, 1, 1), (-1, 0, 1), (0, -1, 1), (3, 4, 5), (-4, 3, 5), (4, -3, 5), (5, 12, 13)])
        x0, y0 = rng.choice([(0, 0), (2 * rng.randint(-30, 30), 2 * rng.randint(-30, 30))])
        if q > 1 and pts:
            x0, y0 = pts[0]
        if all((c * (x - x0) - s * (y - y0)) % q == 0 and (s * (x - x0) + c * (y - y0)) % q == 0 for x, y in pts):
            w.rotate(r, c, s, q, x0, y0)
            return


def map_traces(ctx, n):
    rng, out = ctx.rng, []
    for t in range(n):
        u = unit(rng)
        w = MeshOps(ctx, u, f"c19-{t}")
        tiny = rng.random() < 0.5
        turn = rng.random() < 0.3
        g = Grid(rng, 2, step=[10, 20, 60, 120] if turn else [2, 4, 6, 8, 12] if tiny else [8, 12, 24, 48, 60, 120],
                 origin=[2 * rng.randint(-5, 3), 2 * rng.randint(-5, 3)] if tiny else None,
                 drop=rng.choice([0, 0.2]), jitter=0 if turn else rng.choice([0, 0, 1]))
        d = g.mesh(w.HexaData, u, rng.choice([1, 1, 2, 3, 0]), rng.random() < 0.7,
                   tuple(a for a in range(2) if rng.random() < 0.2), empty=rng.choice([0, 0.2, 0.6]))
        curve(rng, d, u, 0 if turn and rng.random() < 0.5 else rng.choice([0, 0.3, 0.7]), rng.choice(["m", "C", "mC", "mCs"]))
        w.new("a", d)
        for _ in range(rng.randint(1, 3)):
            if rng.random() < 0.25:
                w.hand(rng.choice("ab"), rng)
            if rng.random() < 0.65:
                random_map(w, "a", rng.choice("ab"), rng)
            else:
                random_rotate(w, rng.choice("ab"), rng)
        if rng.random() < 0.3:
            w.extrude("a", "c", random_z(rng, 2))
            random_rotate(w, "c", rng)
        if rng.random() < 0.4:
            g = Grid(rng, 3, [rng.randint(1, 2) for _ in range(3)], step=[10, 20, 60], drop=rng.choice([0, 0.2]))
            w.new("d", curve(rng, g.mesh(w.HexaData, u, 1), u, rng.choice([0.2, 0.8]), rng.choice(["m", "mC", "mCs"])))
            for _ in range(rng.choice([1, 1, 2])):
                random_rotate(w, "d", rng)
        w.poke("a", rng)
        w.poke("b", rng)
        out.append(w.trace())
    return out


def geometry_traces(ctx, n):
    rng, out = ctx.rng, []
    for t in range(n):
        u = unit(rng)
        w = MeshOps(ctx, u, f"c22-{t}")
        nd = rng.choice([2, 3])
        g = Grid(rng, nd, [1] * nd if rng.random() < 0.4 else [rng.randint(1, 2) for _ in range(nd)],
                 step=[8, 12, 20, 40, 100], jitter=rng.choice([0, 1, 3]))
        d = g.mesh(w.HexaData, u, 1)
        if rng.random() < 0.5:
            for e in d.elem:     # general, even degenerate, hexahedra
                for a in range(nd):
                    e.pos[a] = np.array([rng.randint(-40, 40) for _ in range(2 ** nd)]).reshape(e.pos[a].shape) * u
        if rng.random() < 0.4:
            lr1 = [rng.randint(2, 4), rng.randint(2, 4), rng.randint(2, 3) if nd == 3 else 1]
            d = w.HexaData(nd, rng.randint(1, 3), lr1, [nd, 0, 0, 0, 0], 1)
            for e in d.elem:
                e.pos[:nd] = np.array([rng.randint(-40, 40) for _ in range(e.pos[:nd].size)]).reshape(e.pos[:nd].shape) * u
            d.elmap = np.arange(1, d.nel + 1)
            w.new("a", d)
            w.geometry("a")
            out.append(w.trace())
            continue
        w.new("a", d)
        w.geometry("a")
        if rng.random() < 0.5:
            random_rotate(w, "a", rng)
            w.geometry("a")
        for _ in range(rng.choice([0, 1, 2])):
            w.hand("a", rng)
            w.geometry("a")
        out.append(w.trace())
    return out


QUADS = [(1, 2, 2, 3), (2, 3, 6, 7), (1, 4, 8, 9), (2, 6, 9, 11), (0, 3, 4, 5), (0, 0, 1, 1)]
RING = [(s * a, t * b) for a, b in [(7, 24), (24, 7), (15, 20), (20, 15)] for s in (1, -1) for t in (1, -1)] + \
       [(25, 0), (0, 25), (-25, 0), (0, -25)]


def sphere(rng, p, a, b, nd):
    """centre and radius of a sphere on which the middle of the edge from corner a to b is a lattice point"""
    if any((p[c, a] + p[c, b]) % 2 for c in range(3)):
        return None
    k = rng.randint(1, 4)
    if nd == 3:
        *v, L = rng.choice(QUADS)
        rng.shuffle(v)
        v = [k * x * rng.choice([-1, 1]) for x in v]
    else:
        v, L = rng.choice([([3, 4, 0], 5), ([-4, 3, 0], 5), ([0, -5, 0], 5), ([5, 12, 0], 13)])
        v = [k * x for x in v]
    return [int(p[c, a] + p[c, b]) // 2 - v[c] for c in range(3)] + [0, L * rng.randint(1, 20)]


def edge_traces(ctx, n):
    """curved edges of every kind, and points that lie on a circle with the ends of an edge"""
    rng, out = ctx.rng, []
    for t in range(n):
        u = unit(rng)
        w = MeshOps(ctx, u, f"c22e-{t}")
        nd = rng.choice([2, 3, 3])
        g = Grid(rng, nd, [rng.randint(1, 2) for _ in range(nd)], step=[6, 8, 12, 20, 40], jitter=rng.choice([0, 0, 2]))
        d = g.mesh(w.HexaData, u, 1)
        ne = 4 if nd == 2 else 12
        circles = []
        for i, e in enumerate(d.elem):
            for j in range(ne):
                p = np.array([qarr(c, u) for c in e.pos])
                a, b = (EDGES2 if nd == 2 else EDGES3)[j]
                r = rng.random()
                if r < 0.2:
                    e.ccurv[j] = "m"
                    e.curv[j, :3] = np.array([rng.randint(-60, 60) for _ in range(nd)] + [0] * (3 - nd)) * u
                elif r < 0.55 and j < 8:
                    R = circle_radius(rng, p[:2, a], p[:2, b])
                    if R is not None:
                        e.ccurv[j], e.curv[j, 0] = "C", R * u
                elif r < 0.75:
                    v = sphere(rng, p, a, b, nd)
                    if v:
                        e.ccurv[j], e.curv[j] = "s", np.array(v) * u
        # one element whose edges end on circles
        e = d.elem[0]
        done = set()
        for _ in range(4):
            j = rng.randrange(ne) if _ else t // 3 % ne     # every edge in turn
            a, b = (EDGES2 if nd == 2 else EDGES3)[j]
            if not _:
                for q in range(ne):
                    if {a, b} & set((EDGES2 if nd == 2 else EDGES3)[q]):
                        e.ccurv[q], e.curv[q] = "", 0
            if {a, b} & done or e.ccurv[j] not in ("", "m"):
                continue
            if any(e.ccurv[q] == "C" or e.ccurv[q] == "s" for q in range(ne)
                   if {a, b} & set((EDGES2 if nd == 2 else EDGES3)[q])):
                continue
            done |= {a, b}
            k = 2 * rng.randint(1, 6)
            c = [2 * rng.randint(-30, 30) for _ in range(3)]
            ax = [0, 1] if nd == 2 else rng.choice([[0, 1], [0, 1], [1, 0], [0, 2], [1, 2]])
            if nd == 2:
                c[2] = 0
            pts = [list(c) for _ in range(3)]
            if rng.random() < 0.25:      # a flat arc: an odd number of rises on each side
                h = rng.choice([2, -2])
                f = rng.choice([15, 35, 101, 201, 211])
                for q, o in zip(pts, rng.choice([((-f, 0), (0, 1), (f, 0)), ((f, 0), (0, 1), (-f, 0))])):
                    q[ax[0]] += h * o[0]
                    q[ax[1]] += h * o[1]
            elif rng.random() < 0.15:
                v = [2 * rng.randint(-5, 5) for _ in range(nd)] + [0] * (3 - nd)
                if not any(v):
                    v[0] = 2
                pts = [[c[x] + f * v[x] for x in range(3)] for f in (0, rng.choice([1, 2]), 3)]
            else:
                for q, o in zip(pts, rng.sample(RING, 3)):
                    q[ax[0]] += k * o[0]
                    q[ax[1]] += k * o[1]
            for corner, q in ((a, pts[0]), (b, pts[2])):
                for x in range(nd):
                    e.pos[x].flat[corner] = q[x] * u
            circles.append((0, j, pts[1]))
        d.ncurv = sum(c != "" for e in d.elem for c in e.ccurv)
        w.new("a", d)
        w.edges("a", circles)
        w.hand("a", rng, ("scale", "list"))
        w.edges("a")
        out.append(w.trace())
    return out


# ------------------------------------------------------------------ long histories
OPS = ["box", "new", "copy", "merge", "merge", "genint", "delint", "keep", "extrude", "map", "map", "rotate", "update",
       "reload", "check", "poke", "hand"]


def random_history(w, rng, length, ops=OPS, nbc=1):
    regs = ["a", "b", "c", "d"]
    nv = {1: [2, 2, 1, 0, 0], 2: [2, 2, 1, 1, 0], 3: [2, 2, 0, 1, 1]}[nbc]
    for r in regs[:2]:
        if rng.random() < 0.5:
            box_of(w, r, rng, nv, nbc)
        else:
            w.new(r, plane_mesh(w, rng, nbc, True, nv=nv))
    if rng.random() < 0.4:
        w.new("c", solid_mesh(w, rng, nbc, [3, 3] + nv[2:]))
    for _ in range(length):
        if w.dead:
            return
        op = rng.choice(ops)
        have = [r for r in regs if r in w.reg]
        a = rng.choice(have)
        r = rng.choice(regs)
        d = w.reg[a]
        if op == "box":
            box_of(w, r, rng, nv, nbc)
        elif op == "new":
            w.new(r, plane_mesh(w, rng, nbc, True, nv=nv) if rng.random() < 0.8
                  else solid_mesh(w, rng, nbc, [3, 3] + nv[2:]))
        elif op == "copy":
            w.copy(a, r)
        elif op == "merge":
            b = rng.choice(have)
            if b == a or w.reg[b].nel + d.nel > 24 or w.reg[b].nbc != d.nbc:
                continue
            # a copy of the other mesh set beside this one
            if d.ndim == w.reg[b].ndim and rng.random() < 0.7 and d.nel and w.reg[b].nel:
                x = copy.deepcopy(w.reg[b])
                hi = max(v for e in d.elem for v in qarr(e.pos[0], w.unit))
                lo = min(v for e in x.elem for v in qarr(e.pos[0], w.unit))
                y1 = min(v for e in d.elem for v in qarr(e.pos[1], w.unit))
                y2 = min(v for e in x.elem for v in qarr(e.pos[1], w.unit))
                displace(x, w.unit, [hi - lo, y1 - y2, 0])
                x.update_ncurv()
                b = rng.choice([q for q in regs if q != a])
                w.adopt_new(b, x)
            w.merge(a, b, *rng.choice(TOLS[:3]), ie=rng.random() < 0.6, ia=rng.random() < 0.1)
        elif op == "genint":
            w.genint(a, *rng.choice(TOLS[:3]))
        elif op == "delint":
            w.delint(a)
        elif op == "keep":
            if d.nel and rng.random() < 0.7:
                els = [i for i in range(d.nel) if rng.random() < 0.8] or [0]
                if ok_links(d):
                    w.keep(a, els, rng.choice(["", "con", "W"]))
        elif op == "extrude":
            nz = rng.randint(1, 3)
            if d.ndim == 2 and d.nel * nz <= 24 and d.nel:
                b1, b2 = random_ends(rng, d.nbc)
                w.extrude(a, r, random_z(rng, nz), b1, b2, rng.random() < 0.6)
        elif op == "map":
            random_map(w, a, r, rng)
        elif op == "rotate":
            random_rotate(w, a, rng)
        elif op == "update":
            w.update(a)
        elif op == "reload":
            if bound(d, w.unit) < 9000 and d.nbc and d.nel and d.lr1[0] == 2 and reloadable(d):
                w.reload(a, r, rng.choice(["re2", "rea"]))
        elif op == "check":
            w.check(a, *rng.choice(TOLS[:3]))
        elif op == "poke":
            w.poke(a, rng)
        elif op == "hand":
            w.hand(a, rng, ("scale", "squash", "move", "list"))


def printable(d):
    """nothing is lost in seven digits"""
    return all(float("%.6e" % v) == v for e in d.elem for c in (e.pos, e.curv) for v in np.asarray(c, float).ravel().tolist())


def reloadable(d):
    """what the file formats can hold"""
    return d.var[0] == d.ndim and not any(c[0] == "" and any(c[j] for j in range(1, 8)) and False
                                          for e in d.elem for row in e.bcs for c in row)


def ok_links(d):
    for e in d.elem:
        for row in e.bcs:
            for c in row:
                if c[0] in ("E", "P") and not 1 <= c[3] <= d.nel:
                    return False
    return True


def box_of(w, r, rng, nv, nbc):
    nx, ny = rng.randint(1, 3), rng.randint(1, 2)
    x0, y0 = 2 * rng.randint(-5, 5), 2 * rng.randint(-5, 5)
    bcs = []
    for _ in range(2):
        if rng.random() < 0.5:
            bcs += [None, None]
        else:
            bcs += [[rng.choice(EXT) for _ in range(nbc)] for _ in range(2)]
    w.box(r, nx, ny, x0, x0 + 8 * nx, y0, y0 + 8 * ny, nv, bcs, rng.random() < 0.8)


def _adopt_new(self, r, d):
    """a mesh prepared by the driver from one of the registers"""
    self.reg[r] = d
    self.ev.append(dict(op="new", r=r, st="ok", post=safe_project(d, self.unit)))


MeshOps.adopt_new = _adopt_new


def history_traces(ctx, n, length, ops=OPS, tag="h"):
    rng, out = ctx.rng, []
    for t in range(n):
        u = rng.choice([1.0, 0.5, 0.0625, 4.0, 2.0 ** -20, 2.0 ** 17])
        w = MeshOps(ctx, u, f"{tag}-{t}")
        random_history(w, rng, length, ops, rng.choice([1, 1, 2, 3]))
        out.append(w.trace())
    return out


def generated_traces(ctx, hists, n, focus=None, tag="g"):
    """Histories of the specification's own transition relation, replayed in the real code."""
    rng = ctx.rng
    groups = {}
    for h in hists:
        groups.setdefault(str(h[:-1]), []).append(h)
    keys = sorted(groups)
    rng.shuffle(keys)
    if focus:
        keys.sort(key=lambda k: -sum(k.count(f"'op': '{f}'") for f in focus))
    out = []
    for t, k in enumerate(keys[:n]):
        h = rng.choice(groups[k])
        w = MeshOps(ctx, rng.choice([1.0, 0.5, 0.0625, 4.0, 2.0 ** -20, 2.0 ** 17]), f"{tag}-{t}")
        for r in "ab":
            x = h[0][r]
            w.box(r, x["nx"], x["ny"], x["x0"], x["x1"], x["y0"], x["y1"], x["nv"], [b or None for b in x["bcs"]], x["ib"])
        for x in h[1:]:
            if w.dead or bound_ok(w) is False:
                break
            play(w, x)
        for r in "ab":
            if w.has(r):
                w.check(r)
                w.geometry(r)
                w.present(r)
        out.append(w.trace())
    return out


def bound_ok(w):
    return all(bound(d, w.unit) < 5000 for d in w.reg.values())


def play(w, x):
    op, r = x["op"], x["r"]
    if op == "merge":
        A, B = w.reg[r], copy.deepcopy(w.reg[x["b"]])
        mm = [[f(v for e in m.elem for v in qarr(e.pos[a], w.unit)) for m, f in ((A, max if a == 0 else min), (B, min))] for a in (0, 1)]
        displace(B, w.unit, [mm[0][0] - mm[0][1], mm[1][0] - mm[1][1], 0])
        w.adopt_new("x", B)
        w.merge(r, "x", 1, 1000, ie=x["ie"], ia=False)
    elif op == "genint":
        w.genint(r, 1, 1000)
    elif op == "delint":
        w.delint(r)
    elif op == "keep":
        w.keep(r, x["els"], x["ext"])
    elif op == "extrude":
        nbc = w.reg[x["a"]].nbc
        b = None if x["t"] == "-" else [x["t"]] * nbc
        w.extrude(x["a"], r, x["z"], b, b, x["ib"])
    elif op == "rotate":
        w.rotate(r, 0, 1, 1, 2, -2)
    elif op == "map":
        if resolvable(w.reg[x["a"]], w.unit):
            w.map(x["a"], r, dict(k="affine", a=1, b=1, c=0, d=1, e=0, f=4), x["cu"], x["bo"])
    elif op == "reload":
        w.reload(x["a"], r, x["kind"])


def large_traces(ctx, op):
    """more elements than fit a byte, or than are handled at a time"""
    rng = ctx.rng
    w = MeshOps(ctx, unit(rng), f"large-{op}")
    nv = [2, 2, rng.choice([0, 1]), rng.choice([0, 0, 1]), 0]
    nbc = 1 + (nv[3] > 0)

    def ends(per=0.5):
        return [None, None] if rng.random() < per else [[rng.choice(EXT) for _ in range(nbc)] for _ in range(2)]
    if op == "merge":
        ny = rng.randint(10, 12)
        e1, e2 = ends(1), ends()
        w.box("a", 13, ny, 0, 130, 0, 8 * ny, nv, e1 + e2)
        w.box("b", 14, ny, 130, 270, 0, 8 * ny, nv, e1 + e2)
        w.merge("a", "b", 1, 100, ie=rng.random() < 0.5)
        w.check("a")
    elif op == "extrude":
        w.box("a", rng.randint(8, 10), 7, 0, 720 * 7, 0, 70, nv, ends() + ends())
        z = random_z(rng, 5)
        b1, b2 = random_ends(rng, nbc)
        w.extrude("a", "b", z, b1, b2, rng.random() < 0.7)
    else:
        nx, ny = rng.randint(17, 20), rng.randint(15, 17)
        w.box("a", nx, ny, 0, 8 * nx, -16, 12 * ny - 16, nv, ends() + ends(), rng.random() < 0.5 if op == "box" else True)
        if op == "keep":
            els = [i for i in range(nx * ny) if rng.random() < 0.97]
            rng.shuffle(els)
            w.keep("a", els, rng.choice(["", "con"]))
        elif op == "check":
            w.check("a")
            x = copy.deepcopy(w.reg["a"])
            e = x.elem[nx * ny - rng.randint(2, nx)]
            e.bcs[nbc - 1, 1][3] = rng.choice([1, nx * ny - 256, nx * ny + 1])
            w.new("b", x)
            w.check("b")
        elif op == "internal":
            w.delint("a")
            w.genint("a", 1, 1000)
        elif op == "map":
            w.map("a", "b", dict(k="affine", a=1, b=0, c=0, d=2, e=4, f=0), False, True)
            w.rotate("b", 0, 1, 1, 4, 4)
            w.geometry("a")
    return [w.trace()]
