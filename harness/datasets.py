"""Driver for field files opened as labelled arrays."""
import io
import os
from itertools import product
from pathlib import Path

import numpy as np

from . import fields
from .fields import World, time_text

AXES = ("x", "y", "z")
LETTERS = list(".fld7x0")


# ------------------------------------------------------------------ files of box meshes
def coordinates(rng):
    """increasing coordinates, exact in single precision, far apart and away from rounding ties"""
    kind = rng.random()
    if kind < 0.5:
        u, o = rng.choice([(1, 0), (0.125, -3.0), (0.25, 0), (64.0, -1000.0), (1.0, -7.0)])
        return [o + u * k for k in sorted(rng.sample(range(40), 16))]
    v, s = rng.uniform(-5, 5), rng.choice([1e-4, 0.03, 1.0, 30.0])
    r = []
    for _ in range(16):
        r.append(float(np.float32(v)))
        v += s * rng.uniform(0.2, 1.0) + 1e-5 * max(1.0, abs(v))
    return r


class Grid:
    def __init__(self, rng, coords, small=False):
        self.ndim = rng.choice([2, 3, 3])
        while True:
            self.n = [rng.choice([1, 1, 2, 3]), rng.choice([1, 2, 3]), 1 if self.ndim == 2 else rng.choice([1, 1, 2, 3])]
            if np.prod(self.n) <= (4 if small else 9):
                break
        self.lr1 = [rng.randint(2, 4), rng.randint(2, 4), 1 if self.ndim == 2 else rng.randint(2, 3)]
        self.layers = []
        for d in range(3):
            if self.ndim == 2 and d == 2:
                self.layers.append([[0.0]])
                continue
            k, out = rng.randint(0, 2), []
            cs = list(coords)
            for _ in range(self.n[d]):
                if k + self.lr1[d] > len(cs):
                    break
                out.append(cs[k:k + self.lr1[d]])
                k += self.lr1[d] - 1 + (1 if rng.random() < 0.2 else 0)       # touching or apart
            self.layers.append(out)
        self.n = [len(x) for x in self.layers]
        self.cells = list(product(*(range(k) for k in self.n)))

    def pos(self, cell, twist=None, rng=None):
        a = [self.layers[d][cell[d]] for d in range(3)]
        if twist in AXES:
            d = AXES.index(twist)
            a[d] = a[d][::-1]
        X, Y, Z = np.meshgrid(*a, indexing="ij")
        p = np.array([c.transpose(2, 1, 0) for c in (X, Y, Z)])      # [component, z, y, x]
        if twist == "turn":            # quarter turn of the points about z
            p = np.rot90(p, rng.choice([1, 2, 3]), axes=(2, 3))
        elif twist == "swap":
            p = p.transpose(0, 1, 3, 2)
        elif twist == "turnz":
            p = np.rot90(p, rng.choice([1, 3]), axes=(1, 2 if rng.random() < 0.5 else 3))
        elif twist == "point":
            q = p.copy()
            i = tuple(rng.randrange(k) for k in q.shape[1:])
            j = tuple(rng.randrange(k) for k in q.shape[1:])
            q[(slice(None),) + i], q[(slice(None),) + j] = p[(slice(None),) + j], p[(slice(None),) + i]
            p = q
        return p


def twists(grid):
    r = ["x", "y", "point"]
    if grid.lr1[0] == grid.lr1[1]:
        r += ["turn", "swap"]
    if grid.ndim == 3:
        r += ["z"]
        if len(set(grid.lr1)) == 1:
            r += ["turnz"]
    return r


def box_file(rng, pal, grid, nv=None, twist=None, time=None):
    nd, n = grid.ndim, len(grid.cells)
    if nv is None:
        nv = [nd, rng.choice([0, nd, nd]), rng.randint(0, 1), rng.randint(0, 1), rng.choice([0, 0, 1, 2, 3])]
    F = fields.random_file(rng, pal, (nd, grid.lr1, nv, n), False)
    cells = list(grid.cells)
    rng.shuffle(cells)
    odd = set(rng.sample(range(n), rng.choice([1, n]))) if twist else set()
    for e in range(n):
        p = grid.pos(cells[e], twist if e in odd else None, rng)
        for c in range(nd):
            F["blk"][e * nd + c] = pal.index(p[c])
    for b in range(nd * n, len(F["blk"])):          # constant, often zero
        if rng.random() < 0.15:
            F["blk"][b] = [rng.choice([pal.zero, F["blk"][b][0]])] * len(F["blk"][b])
    if time is not None:
        F["hdr"]["time"] = time_text(time)
    return F


def file_name(rng, k):
    return rng.choice([f"run0.f{k:05d}", f"a.b.f{k:05d}", f"s{k}.fld", f"x.f90.f{99999 - k}", f"e1.f00001.f{k:05d}", f"fld{k}.fld"])


# ------------------------------------------------------------------ observation
def observe(ds, pal):
    def vals(a):
        return pal.index(np.asarray(a.values))

    r = dict(coord=[vals(ds.coords[a]) if a in ds.coords else [] for a in AXES], axes=sorted(map(str, ds.coords)),
             time=[time_text(t) for t in np.atleast_1d(ds.coords["time"].values)] if "time" in ds.coords else [],
             names=[], dims=[], shape=[], vals=[])
    for k in ds.data_vars:
        a = ds[k]
        r["names"].append(str(k))
        r["dims"].append([str(x) for x in a.dims])
        r["shape"].append([int(x) for x in a.shape])
        r["vals"].append(vals(a))
    return r


EMPTY = dict(coord=[[], [], []], axes=[], time=[], names=[], dims=[], shape=[], vals=[])


def plugin_there():
    import xarray as xr

    return "pymech" in xr.backends.plugins.list_engines()


def opener(how):
    import pymech
    import xarray as xr
    from pymech.dataset import PymechXarrayBackend

    if how == "pymech":
        return lambda f, **k: pymech.open_dataset(f, **k)
    if how == "path":
        return lambda f, **k: pymech.open_dataset(Path(f), **k)
    if how == "engine":
        return lambda f, **k: xr.open_dataset(f, engine="pymech" if plugin_there() else PymechXarrayBackend, **k)
    return lambda f, **k: xr.open_dataset(f, **k)


def hows():
    return ["pymech", "path", "engine"] + (["guess"] if plugin_there() else [])


def do_open(w, f, how, drop=None):
    ev = dict(op="open", fn=f, how=how, drop=[], ds=EMPTY)
    kw = {}
    if drop:
        ev["drop"] = list(drop)
        kw["drop_variables"] = drop[0] if len(drop) == 1 and w.ctx.rng.random() < 0.5 else list(drop)
    st, ds = w._do(ev, opener(how), w.fn(f), **kw)
    if st == "ok":
        try:
            ev["ds"] = observe(ds, w.pal)
            if w.ctx.rng.random() < 0.3:             # what is done to a dataset stays with it
                for k in ds.data_vars:
                    ds[k].values[...] = w.pal.value(1)
        except Exception as e:  # noqa: BLE001
            ev["exc"] = repr(e)


def do_many(w, fs, drop=None):
    import pymech

    ev = dict(op="many", fns=list(fs), drop=list(drop or []), ds=EMPTY)
    kw = dict(drop_variables=list(drop)) if drop else {}
    names = [w.fn(f) for f in fs]
    if w.ctx.rng.random() < 0.3:
        names = [Path(f) for f in names]

    def go():
        ev["ds"] = observe(pymech.open_mfdataset(names, **kw).load(), w.pal)

    w._do(ev, go)


def var_names(nv):
    r = ["xmesh", "ymesh", "zmesh"] + (["ux", "uy", "uz"] if nv[1] else [])
    r += ["pressure"] * bool(nv[2]) + ["temperature"] * bool(nv[3])
    return r + ["s%02d" % (i + 1) for i in range(nv[4])]


def palette(ctx):
    cs = coordinates(ctx.rng)
    return fields.Palette(ctx.rng, cs, 90), cs


def open_traces(ctx, n):
    """all traces share one table of values, each has its own grid"""
    rng = ctx.rng
    pal, cs = palette(ctx)
    out = []
    for t in range(n):
        w = World(ctx, pal, f"ds{t}")
        for k in range(rng.choice([1, 2])):
            g = Grid(rng, cs)
            twist = rng.choice(twists(g)) if rng.random() < 0.3 else None
            nv = None
            if t % 25 == 3:
                nv, g = [g.ndim, 0, 0, 1, rng.choice([10, 12, 99])], Grid(rng, cs, True)
                nv[0] = g.ndim
            if t % 25 == 4:
                nv = [0, g.ndim, 1, 0, 0]                    # no geometry at all
            F = box_file(rng, pal, g, nv, twist) if nv is None or nv[0] else fields.random_file(rng, pal, (g.ndim, g.lr1, nv, len(g.cells)), False)
            f = file_name(rng, k)
            w.put(f, F)
            do_open(w, f, rng.choice(hows()))
            if rng.random() < 0.5:
                names = var_names(F["hdr"]["nv"])
                do_open(w, f, rng.choice(hows()), rng.sample(names, rng.randint(1, min(4, len(names)))))
            if rng.random() < 0.3:                   # written anew, or just opened again
                if rng.random() < 0.7:
                    w.put(f, box_file(rng, pal, Grid(rng, cs) if rng.random() < 0.3 else g))
                do_open(w, f, rng.choice(hows()))
        out.append(w.trace())
    return out, pal


def many_traces(ctx, n):
    rng = ctx.rng
    pal, cs = palette(ctx)
    out = []
    for t in range(n):
        w = World(ctx, pal, f"many{t}")
        g = Grid(rng, cs, True)
        nd = g.ndim
        nv = [nd, rng.choice([0, nd, nd]), rng.randint(0, 1), rng.randint(0, 1), rng.choice([0, 0, 1, 2])]
        fs = []
        for k in range(rng.randint(1, 4)):
            f = rng.choice(["", "b", "z"]) + file_name(rng, k)
            if f in fs:
                continue
            w.put(f, box_file(rng, pal, g, nv, None, rng.choice([0.0, 1.5, 2.5, -1.0, 1e3, rng.random()])))
            fs.append(f)
        rng.shuffle(fs)
        do_many(w, fs)
        if rng.random() < 0.3:
            do_many(w, rng.sample(fs, rng.randint(1, len(fs))), rng.sample(var_names(nv), 1))
        if rng.random() < 0.3:
            w.put(fs[0], box_file(rng, pal, g, nv, None, 7.25))
            do_many(w, fs)
        out.append(w.trace())
    return out, pal


# ------------------------------------------------------------------ names
def random_name(rng):
    m = rng.random()
    if m < 0.35:
        return "".join(rng.choice(LETTERS) for _ in range(rng.randint(1, 9)))
    good = rng.choice([".fld", ".f%05d" % rng.randint(0, 99999)])
    stem = rng.choice(["", "a", "run0", "a.b", "/tmp/no such/x", "dir.f00001/y", "x.fld", "é", "a\nb", " ", "..", "f", "a.f00002"])
    if m < 0.55:
        return stem + good
    tail = rng.choice([".bak", "~", ".gz", "x", "0", "1", " ", "\n", "\t", ".nc", "/x", "/x.nc", ".f90", ".f", "/a.h5", "_old", ".fl"])
    if m < 0.75:
        return stem + good + tail
    s = stem + good
    i = rng.randrange(len(s))
    k = rng.random()
    if k < 0.4:
        return s[:i] + s[i + 1:] or "q"
    if k < 0.8:
        return s[:i] + rng.choice("fFlLdD.0123456789 xX-_e+") + s[i + 1:]
    return s.upper()


def all_names(alphabet, k):
    for n in range(1, k + 1):
        for c in product(alphabet, repeat=n):
            yield "".join(c)


def do_names(w, names):
    import pymech
    import pymech.dataset as pd

    ev = dict(op="names", names=[], claim=[], plugin=[], outcome=[])
    be = pd.PymechXarrayBackend()

    def one(text, p):
        ev["names"].append(text)
        ev["claim"].append(bool(pd.can_open_nek_dataset(p)))
        ev["plugin"].append(bool(be.guess_can_open(p)))
        try:
            pymech.open_dataset(p)
            ev["outcome"].append("opened")
        except Exception as e:  # noqa: BLE001
            ev["outcome"].append("NotImplementedError" if isinstance(e, NotImplementedError) else type(e).__name__)

    def go():
        cwd = os.getcwd()
        os.chdir(w.dir)              # where none of the names exists
        try:
            for s in names:
                one(s, s)
                if w.ctx.rng.random() < 0.2:
                    p = Path(s)
                    one(str(p), p)
        finally:
            os.chdir(cwd)

    w._do(ev, go)
    if ev["st"] != "ok":
        ev["claim"] = []


def do_named(w, f, how):
    ev = dict(op="named", fn=f, how="pymech" if how in ("pymech", "path") else how)
    w._do(ev, opener(how), w.fn(f))


def buffers(w):
    """open files and byte buffers are not names of field files"""
    import pymech.dataset as pd

    ev = dict(op="names", names=[], claim=[], plugin=[], outcome=[])
    be = pd.PymechXarrayBackend()

    def go():
        for x in (io.BytesIO(b"a.f00001"), open(os.path.join(w.dir, sorted(os.listdir(w.dir))[0]), "rb")):
            with x:
                ev["names"].append(str(x))
                ev["claim"].append(bool(pd.can_open_nek_dataset(x)))
                ev["plugin"].append(bool(be.guess_can_open(x)))
                ev["outcome"].append("NotImplementedError")

    w._do(ev, go)


def name_traces(ctx, n):
    rng = ctx.rng
    pal, cs = palette(ctx)
    out = []
    full = list(all_names(".fld7", 5 if ctx.thorough else 4))
    for k in range(0, len(full), 400):
        w = World(ctx, pal, f"all{k}")
        do_names(w, full[k:k + 400])
        out.append(w.trace())
    for t in range(n):
        w = World(ctx, pal, f"name{t}")
        do_names(w, [random_name(rng) for _ in range(60)])
        g = Grid(rng, cs, True)
        F = box_file(rng, pal, g)
        for _ in range(3):
            f = random_name(rng)
            if "/" in f or f in (".", "..") or "\0" in f:
                f = rng.choice(["a.f00001.bak", "a.fld~", "b.f0001", "c.f000012", "d.FLD", "e.fldx", "f00001", "g.f12345"])
            w.put(f, F)
            do_named(w, f, rng.choice([h for h in hows() if h != "engine"]))
        buffers(w)
        out.append(w.trace())
    return out, pal
