"""Driver for the export to VTK. The toolkit is not installed: a stand-in records what it is given."""
import os
import sys
import types
from pathlib import Path

import numpy as np

from . import fields
from .fields import World


# ------------------------------------------------------------------ the stand-in
class _Array:
    def __init__(self, a):
        self.a = np.array(a, dtype=np.float64)       # the toolkit keeps the values given at this time
        self.name = ""

    number_of_components = property(lambda self: 1 if self.a.ndim == 1 else self.a.shape[1])


class _PointData:
    def __init__(self):
        self.arrays, self.active = [], {}

    def _set(self, kind, a):
        old = self.active.get(kind)
        x = _Array(a)
        if old is not None:
            self.arrays[self.arrays.index(old)] = x
        else:
            self.arrays.append(x)
        self.active[kind] = x

    vectors = property(lambda self: self.active.get("vectors"), lambda self, a: self._set("vectors", a))
    scalars = property(lambda self: self.active.get("scalars"), lambda self, a: self._set("scalars", a))

    def add_array(self, a):
        self.arrays.append(a if isinstance(a, _Array) else _Array(a))
        return len(self.arrays) - 1

    def get_array(self, i):
        if isinstance(i, str):
            r = [x for x in self.arrays if x.name == i]
            return r[0] if r else None
        return self.arrays[i]

    number_of_arrays = property(lambda self: len(self.arrays))

    def update(self):
        pass

    modified = update


class _CellArray:
    def set_cells(self, n, a):
        self.n, self.a = int(n), np.array(a)


class _UnstructuredGrid:
    def __init__(self, points=None, **kw):
        self._points = None if points is None else np.array(points, dtype=np.float64)
        self.point_data = _PointData()
        self.types = self.locations = self.cells = None

    points = property(lambda self: self._points, lambda self, a: setattr(self, "_points", np.array(a, dtype=np.float64)))

    def set_cells(self, types_, locations, cells):
        self.types, self.locations, self.cells = np.array(types_), np.array(locations), cells


def _cell(n):
    class C:
        cell_type = n

    return C


WRITTEN = []


def install():
    if "tvtk.api" in sys.modules:
        return
    tvtk = types.SimpleNamespace(Hexahedron=_cell(12), Quad=_cell(9), CellArray=_CellArray, UnstructuredGrid=_UnstructuredGrid)
    api = types.ModuleType("tvtk.api")
    api.tvtk = tvtk
    api.write_data = lambda ds, fname, **kw: WRITTEN.append((ds, fname))
    pkg = types.ModuleType("tvtk")
    pkg.api = api
    sys.modules["tvtk"], sys.modules["tvtk.api"] = pkg, api


EMPTY = dict(points=[-1], ncells=-1, cells=[], types=[], locations=[], arrays=[])


def ints(a):
    return [fields.as_int(x) for x in np.asarray(a).ravel().tolist()]


def observe(g, pal):
    return dict(points=pal.index(g.points), ncells=g.cells.n, cells=ints(g.cells.a), types=ints(g.types), locations=ints(g.locations),
                arrays=[dict(name=str(x.name), vals=pal.index(x.a)) for x in g.point_data.arrays])


# ------------------------------------------------------------------ events
def convert(w, r, down):
    from pymech.vtksuite import hexa2vtk

    ev = dict(op="convert", r=r, down=down, grid=EMPTY)
    d = w.reg[r]
    if down:
        fn = (lambda: hexa2vtk(d, downsample=True)) if w.ctx.rng.random() < 0.5 else (lambda: hexa2vtk(d, True))
    else:
        fn = lambda: hexa2vtk(d)      # noqa: E731
    st, g = w._do(ev, fn)
    if st == "ok":
        try:
            ev["grid"] = observe(g, w.pal)
        except Exception as e:  # noqa: BLE001
            ev["exc"] = repr(e)


def export(w, r, name):
    from pymech.vtksuite import writevtk

    want = os.path.splitext(w.fn(name))[0] + ".vtp"
    ev = dict(op="export", r=r, grid=EMPTY, want=want, written="")
    WRITTEN.clear()
    st, _ = w._do(ev, writevtk, Path(w.fn(name)) if w.ctx.rng.random() < 0.5 else w.fn(name), w.reg[r])
    if st == "ok" and len(WRITTEN) == 1:
        try:
            ev["written"] = str(WRITTEN[0][1])
            ev["grid"] = observe(WRITTEN[0][0], w.pal)
        except Exception as e:  # noqa: BLE001
            ev["exc"] = repr(e)


def shape(rng):
    nd = rng.choice([2, 3, 3])
    hi = rng.choice([3, 5])
    lr1 = [rng.randint(2, hi), rng.randint(2, hi), 1 if nd == 2 else rng.randint(2, hi)]
    nv = [nd, rng.choice([0, nd, nd]), rng.randint(0, 1), rng.randint(0, 1), rng.choice([0, 0, 1, 2, 3, 11])]
    return nd, lr1, nv, rng.randint(1, 4)


def traces(ctx, n):
    install()
    rng = ctx.rng
    pal = fields.Palette(rng)
    out = []
    for t in range(n):
        w = World(ctx, pal, f"vtk{t}")
        w.new("a", shape(rng), rng, rng.choice(["float64", "float64", "float32"]))
        first = rng.random() < 0.5
        convert(w, "a", first)
        convert(w, "a", not first)
        if rng.random() < 0.3:
            w.edit("a", rng)
            convert(w, "a", rng.random() < 0.5)
        if rng.random() < 0.3:
            export(w, "a", rng.choice(["x.vtp", "case0.f00001", "run", "a.b.vtu"]))
        out.append(w.trace())
    return out, pal
