"""Driver for field files: runs the real reader/writer and records what happens."""
import copy
import hashlib
import math
import os
import struct
import sys
from pathlib import Path

import numpy as np

from . import core
from .core import call

GROUPS = ("pos", "vel", "pres", "temp", "scal")


# ------------------------------------------------------------------ values
class Palette:
    """Increasing table of values closed under rounding to single precision."""

    def __init__(self, rng, extra=(), n=40, extreme=False):
        base = {0.0, 1.0, -1.0, 2.0, 0.5, 0.1, -0.1, 1 / 3, math.pi, -math.e, 1e30, -1e30, 1e-30, 1e-300,
                6.54321, 123456789.0, -123456.789, 16777217.0, 2.0 ** 60, 1.0000000001}
        base.update(float(x) for x in extra)
        if extreme:     # overflow, underflow and infinities
            base.update([math.inf, -math.inf, 1e300, -1e39, 3.4028235e38, -3.4028236e38, 5e-324, 1e-45, 1e-46, 2e-39, -2e-39])
        while len(base) < n:
            base.add(rng.choice([-1, 1]) * rng.random() * 10 ** rng.randint(-6, 6))
        with np.errstate(all="ignore"):
            base |= {float(np.float32(v)) for v in base}
        base = {v + 0.0 for v in base}      # one zero
        base = sorted(base) + [math.nan] * extreme      # the last one is not a number
        self.v = np.array(base, dtype=np.float64)
        self.idx = {x: i + 1 for i, x in enumerate(self.v.tolist())}
        self.zero = self.idx[0.0]
        self.n = len(self.v)
        self.nan = self.n * extreme

    def r32(self, i):
        if i == self.nan:
            return i
        with np.errstate(all="ignore"):
            return self.idx[float(np.float32(self.v[i - 1])) + 0.0]

    def tab(self):
        f = self.v.tolist()
        with np.errstate(all="ignore"):
            h4 = [np.float32(x).tobytes() for x in f]
        if sys.byteorder == "big":
            h4 = [x[::-1] for x in h4]
        return dict(R32=[self.r32(i + 1) for i in range(self.n)], zero=self.zero, nan=int(self.nan),
                    h8l=[struct.pack("<d", x).hex() for x in f], h8b=[struct.pack(">d", x).hex() for x in f],
                    h4l=[x.hex() for x in h4], h4b=[x[::-1].hex() for x in h4])

    def index(self, a):
        """indexes of an array of floats (flattened in C order); 0 where not in the table"""
        a = np.asarray(a, dtype=np.float64).ravel()
        p = np.clip(np.searchsorted(self.v, a), 0, self.n - 1)
        return [int(x) + 1 if ok else 0 for x, ok in zip(p, (self.v[p] == a) | (np.isnan(self.v[p]) & np.isnan(a)))]

    def value(self, i):
        return float(self.v[i - 1])


def time_text(t):
    return "%.13E" % float(t)


def as_int(x):
    try:
        if int(x) == x and abs(int(x)) < 2 ** 31:
            return int(x)
    except Exception:  # noqa: BLE001
        pass
    return -999999


def as_ints(x):
    try:
        return [as_int(i) for i in x]
    except Exception:  # noqa: BLE001
        return [-999998]


# ------------------------------------------------------------------ projection
def project(d, pal):
    el = []
    kinds = set()
    lx, ly, lz = (as_ints(d.lr1) + [0, 0, 0])[:3]
    for e in d.elem:
        ge = []
        for g in GROUPS:
            a = np.asarray(getattr(e, g))
            kinds.add(str(a.dtype.newbyteorder("=")))
            if a.ndim != 4 or a.shape[1:] != (lz, ly, lx):
                ge.append([[-1]])
            else:
                ge.append([pal.index(c) for c in a])
        el.append(ge)
    dt = {"float64": "f8", "float32": "f4"}.get(kinds.pop(), "other") if len(kinds) == 1 else "mixed"
    return dict(ndim=as_int(d.ndim), lr1=as_ints(d.lr1), nv=as_ints(d.var), time=time_text(d.time),
                istep=as_int(d.istep), wdsz=as_int(d.wdsz), endian=str(d.endian), nel=as_int(d.nel),
                elmap=as_ints(d.elmap), dt=dt, el=el)


BAD = dict(ndim=-1, lr1=[], nv=[], time="?", istep=-1, wdsz=-1, endian="?", nel=-1, elmap=[], dt="?", el=[])


def safe_project(d, pal):
    try:
        return project(d, pal)
    except Exception:  # noqa: BLE001
        return dict(BAD)


HELD = ("ndim", "nel", "ncurv", "nbc", "var", "lr1", "time", "istep", "wdsz", "endian", "elmap", "elem",
        "pos", "curv", "ccurv", "bcs", "vel", "pres", "temp", "scal")


def digest(d):
    """Hash of everything a data object holds."""
    h = hashlib.sha1()

    def put(x):
        if isinstance(x, np.ndarray):
            h.update(repr((x.shape, str(x.dtype))).encode())
            h.update(x.tobytes() if x.dtype != object else repr(x).encode())
        elif isinstance(x, (list, tuple)):
            h.update(f"[{type(x).__name__}{len(x)}".encode())
            for y in x:
                put(y)
        elif isinstance(x, (int, float, str, bytes, bool, np.generic)) or x is None:
            h.update(repr(x).encode())
        elif any(hasattr(x, k) for k in HELD):
            for k in HELD:                       # what a user of the data sees, not how it is kept
                if hasattr(x, k):
                    h.update(k.encode())
                    put(getattr(x, k))
        else:
            h.update(repr(x).encode())

    put(d)
    return h.hexdigest()


def safe_digest(d):
    try:
        return digest(d)
    except Exception:  # noqa: BLE001
        return "?"


def image(fn):
    with open(fn, "rb") as f:
        b = f.read()
    return dict(h=b[:132].decode("latin-1"), b=b[132:].hex())


# ------------------------------------------------------------------ an independent encoder
def layout(nv, n):
    """(group, component, place) of each block, in file order"""
    r = []
    for g in range(4):
        for e in range(n):
            for c in range(nv[g]):
                r.append((g, c, e))
    for c in range(nv[4]):
        for e in range(n):
            r.append((4, c, e))
    return r


def var_text(nv):
    return "".join(t if n else "" for t, n in zip(("X", "U", "P", "T", "S%02d" % nv[4]), nv))


def encode(F, pal):
    h = F["hdr"]
    s = "#std %1d %2d %2d %2d %10d %10d %20s %9d %6d %6d %s%s" % (
        h["wdsz"], *h["lr1"], h["nelt"], h["nelf"], h["time"], h["istep"], h["fid"], h["nf"],
        var_text(h["nv"]), h["extra"])
    b = bytearray(s.ljust(132).encode())
    o = "<" if F["endian"] == "little" else ">"
    b += struct.pack(o + "f", 6.54321)
    b += struct.pack(o + "%di" % len(F["map"]), *F["map"])
    t = "f" if h["wdsz"] == 4 else "d"
    for blk in F["blk"]:
        b += struct.pack(o + "%d%s" % (len(blk), t), *(pal.value(i) for i in blk))
    b += struct.pack(o + "%df" % len(F["trl"]), *(pal.value(i) for i in F["trl"]))
    return bytes(b)


# ------------------------------------------------------------------ a world of objects and files
class World:
    module = "Trace_Field"

    def __init__(self, ctx, pal, tid):
        import pymech.neksuite as nek
        from pymech.core import HexaData

        self.nek, self.HexaData = nek, HexaData
        self.ctx, self.pal, self.tid = ctx, pal, tid
        self.dir = ctx.path(f"w-{tid}")
        os.makedirs(self.dir)
        self.reg, self.ev, self.meta = {}, [], {}
        self.dead = False
        ctx.live = self

    def fn(self, f):
        return os.path.join(self.dir, f)

    def path(self, f):
        """the name of a file, as text or as a path object"""
        return Path(self.fn(f)) if self.ctx.rng.random() < 0.3 else self.fn(f)

    def _snap(self):
        r = {k: safe_digest(d) for k, d in self.reg.items()}
        f = {}
        for x in sorted(os.listdir(self.dir)):
            with open(self.fn(x), "rb") as g:
                f[x] = hashlib.sha1(g.read()).hexdigest()
        return r, f

    def _do(self, ev, fn, *args, **kw):
        r0, f0 = self._snap()
        st, val = call(fn, *args, **kw)
        r1, f1 = self._snap()
        ev["st"] = st
        ev["exc"] = val if st != "ok" else ""
        ev["chg"] = sorted(k for k in r0 if r0[k] != r1[k])
        ev["chgf"] = sorted(k for k in set(f0) | set(f1) if f0.get(k) != f1.get(k))
        self.ev.append(ev)
        return st, val

    # ---- events
    def new(self, r, shape, rng, dtype="float64"):
        ndim, lr1, nv, n = shape
        d = self.HexaData(ndim, n, list(lr1), list(nv), 0, dtype)
        pal = self.pal
        for e in d.elem:
            for g, nm in enumerate(GROUPS):
                a = getattr(e, nm)
                for c in range(nv[g]):
                    ix = [rng.randint(1, pal.n) for _ in range(a[c].size)]
                    if dtype == "float32":
                        ix = [pal.r32(i) for i in ix]
                    a[c] = np.array([pal.value(i) for i in ix]).reshape(a[c].shape)
        if rng.random() < 0.85:      # otherwise as it was created
            d.time = rng.choice([0.0, 1.5, -2.25, 3.0e-7, 12345.678901234567, 1e10, rng.random(), -rng.random() * 1e-200, 1e300 * rng.random(), 1 / 3e9])
            d.istep = rng.choice([0, 1, 42, 999999999])
            d.wdsz = rng.choice([4, 8])
            d.endian = rng.choice(["little", "big"])
            m = list(range(1, n + 1))
            rng.shuffle(m)
            d.elmap = np.array(m, dtype=np.int32)
        if rng.random() < 0.3:
            relayout(d, rng)
        self.reg[r] = d
        self.ev.append(dict(op="new", r=r, post=safe_project(d, pal), made=dict(ndim=ndim, lr1=list(lr1), nv=list(nv), nel=n), st="ok"))

    def set(self, r, k, v):
        d = self.reg[r]
        if k == "elmap":
            kind = self.ctx.rng.choice(["i4", "i4", "i8", "list", "view"])
            d.elmap = list(v) if kind == "list" else np.array(v, dtype="i8" if kind == "i8" else "i4")
            if kind == "view":
                d.elmap = np.repeat(d.elmap, 2)[::2]
        elif k == "time":
            d.time = float(v)
        else:
            setattr(d, k, v)
        self.ev.append(dict(op="meta", r=r, k=k, v=v, post=v, st="ok"))

    def write(self, r, f):
        ev = dict(op="write", r=r, fn=f)
        st, _ = self._do(ev, self.nek.writenek, self.path(f), self.reg[r])
        if st == "ok":
            try:
                ev["img"] = image(self.fn(f))
            except OSError:
                ev["img"] = dict(h="", b="")
        else:
            self.dead = True if self.reg[r].wdsz in (4, 8) else self.dead
        return st

    def read(self, f, r, dt="f8", skip=()):
        ev = dict(op="read", fn=f, r=r, dt=dt, skip=list(skip))
        kw = {}
        rng = self.ctx.rng
        if dt == "f4":
            kw["dtype"] = rng.choice(["float32", "f4", np.float32, np.dtype("float32")])
        elif rng.random() < 0.3:
            kw["dtype"] = rng.choice(["float64", "f8", np.float64, float])
        if skip:
            kw["skip_vars"] = rng.choice([tuple, tuple, list, set, frozenset])(skip)
        st, val = self._do(ev, self.nek.readnek, self.path(f), **kw)
        if st == "ok":
            self.reg[r] = val
            ev["post"] = safe_project(val, self.pal)
        return st

    def header(self, f, as_file=False):
        from pymech.neksuite.field import read_header

        ev = dict(op="header", fn=f)

        def go():
            if as_file:
                with open(self.fn(f), "rb") as g:
                    return read_header(g)
            return read_header(self.path(f))

        st, h = self._do(ev, go)
        if st == "ok":
            try:
                ev["h"] = dict(wdsz=as_int(h.wdsz), lr1=as_ints(h.orders), nelt=as_int(h.nb_elems),
                               nelf=as_int(h.nb_elems_file), time=time_text(h.time), istep=as_int(h.istep),
                               fid=as_int(h.fid), nf=as_int(h.nb_files), nv=as_ints(h.nb_vars),
                               vars=str(h.variables), ndim=as_int(h.nb_dims), npts=as_int(h.nb_pts_elem))
            except Exception:  # noqa: BLE001
                ev["h"] = dict(wdsz=-1, lr1=[], nelt=-1, nelf=-1, time="", istep=-1, fid=-1, nf=-1, nv=[],
                               vars="", ndim=-1, npts=-1)

    def lims(self, r):
        ev = dict(op="lims", r=r, lims=[], fixed=True)
        d = self.reg[r]
        pal = self.pal

        def go():
            L = d.lims
            ev["lims"] = [[pal.index(x) for x in getattr(L, g)] for g in GROUPS]
            ev["fixed"] = frozen(L, GROUPS) and [[pal.index(x) for x in getattr(d.lims, g)] for g in GROUPS] == ev["lims"]

        self._do(ev, go)

    def points(self, r):
        ev = dict(op="points", r=r, pts=[])
        d = self.reg[r]
        self._do(ev, lambda: ev.update(pts=[[self.pal.index(p) for p in x] for x in d.get_points()]))

    def edit(self, r, rng):
        """new values in some places of an object in use"""
        d = self.reg[r]
        for _ in range(3):
            g = rng.choice(GROUPS)
            a = getattr(rng.choice(d.elem), g)
            if a.size:
                a[tuple(rng.randrange(k) for k in a.shape)] = self.pal.value(self.pal.r32(rng.randint(1, self.pal.n)))
        self.ev.append(dict(op="new", r=r, post=project(d, self.pal), st="ok"))

    def put(self, f, F):
        b = encode(F, self.pal)
        with open(self.fn(f), "wb") as g:
            g.write(b)
        self.meta[f] = len(b)
        self.ev.append(dict(op="put", fn=f, F=F, img=image(self.fn(f)), st="ok"))

    def cut(self, f, n):
        with open(self.fn(f), "rb") as g:
            b = g.read()
        with open(self.fn(f), "wb") as g:
            g.write(b[:n])
        self.ev.append(dict(op="cut", fn=f, n=n, st="ok"))

    def badfile(self, f, content):
        with open(self.fn(f), "wb") as g:
            g.write(content)
        ev = dict(op="badfile", fn=f, r="")
        self._do(ev, self.nek.readnek, self.fn(f))

    def trace(self):
        import shutil

        shutil.rmtree(self.dir, ignore_errors=True)
        return dict(id=str(self.tid), ev=self.ev)


def relayout(d, rng, names=GROUPS):
    """the same values, laid out differently in memory"""
    for e in d.elem:
        for g in names:
            a = getattr(e, g)
            k = rng.choice(["C", "F", "T", "stride", "shared", "order"])
            if k == "F":
                a = np.asfortranarray(a)
            elif k == "T":
                a = np.ascontiguousarray(a.transpose(0, 3, 2, 1)).transpose(0, 3, 2, 1)
            elif k == "stride":
                a = np.repeat(a, 2, axis=3)[..., ::2]
            elif k == "shared":
                a = np.concatenate([a, a])[: len(a)]
            elif k == "order":
                a = a.astype(a.dtype.newbyteorder("S"))
            setattr(e, g, a)


def frozen(L, names):
    """neither the object nor what it holds can be assigned to"""
    for k in names:
        try:
            setattr(L, k, ((0.0, 1.0),) * 3)
            return False
        except AttributeError:
            pass
        x = getattr(L, k, ())
        for y in [x] + list(x):
            try:
                y[0] = 5.0
                return False
            except (TypeError, IndexError):
                pass
    return True


def query_traces(ctx, pal, n):
    rng, out = ctx.rng, []
    for t in range(n):
        w = World(ctx, pal, f"c22-{t}")
        sh = shape(rng)
        if rng.random() < 0.4:
            sh = sh[:3] + (1,)
        w.new("a", sh, rng, rng.choice(["float64", "float32"]))
        w.lims("a")
        w.points("a")
        if rng.random() < 0.5:
            w.edit("a", rng)
            w.lims("a")
            w.points("a")
        out.append(w.trace())
    return out


# ------------------------------------------------------------------ random shapes and files
def shape(rng, big=False):
    ndim = rng.choice([2, 3])
    lz = 1 if ndim == 2 else rng.randint(2, 3)
    lr1 = [rng.randint(2, 4), rng.randint(2, 4), lz]
    while True:
        nv = [ndim * rng.randint(0, 1), ndim * rng.randint(0, 1), rng.randint(0, 1), rng.randint(0, 1),
              rng.choice([0, 0, 1, 2, 3])]
        if any(nv):
            break
    n = rng.choice([1, 2, 3, 4, 5]) if not big else rng.randint(6, 14)
    if rng.random() < 0.08:     # ten scalars or more
        return ndim, [2, 2, min(lz, 2)], nv[:4] + [rng.choice([rng.randint(9, 13), rng.randint(14, 99)])], min(n, 2)
    if rng.random() < 0.06:     # many points
        lr1 = [rng.choice([2, 5, 8, 10, 12]), rng.choice([1, 3, 7, 9]), lz if ndim == 2 else rng.choice([2, 4, 10])]
        return ndim, lr1, [ndim * rng.randint(0, 1), 0, rng.randint(0, 1), 1, rng.randint(0, 1)], rng.randint(1, 2)
    if rng.random() < 0.03:     # many elements
        return ndim, [1, 2, min(lz, 2)], [0, 0, 1, 0, nv[4] % 2], rng.choice([130, 260, 300])
    return ndim, lr1, nv, n


def big_traces(ctx, pal, n, fold=("put", "write")):
    """more elements than 16 bits can count"""
    rng, out = ctx.rng, []
    for k in fold:
        w = World(ctx, pal, f"big-{k}{n}")
        m = list(range(1, n + 1))
        for _ in range(n // 2):     # exchanges of disjoint pairs
            i = rng.randrange(n - 1)
            if m[i] == i + 1 and m[i + 1] == i + 2:
                m[i], m[i + 1] = m[i + 1], m[i]
        if m[0] == 1 and m[-1] == n:
            m[0], m[-1] = n, 1
        if k == "put":
            F = random_file(rng, pal, (2, [1, 1, 1], [0, 0, 1, 0, 0], n), zero=False)
            F["map"] = m
            w.put("f", F)
            w.read("f", "a")
        else:
            w.new("a", (2, [1, 1, 1], [0, 0, 1, 0, 0], n), rng)
            w.set("a", "elmap", m)
            w.write("a", "f")
            w.read("f", "b")
        out.append(w.trace())
    return out


def random_file(rng, pal, sh=None, zero=None):
    ndim, lr1, nv, n = sh or shape(rng)
    m = list(range(1, n + 1))
    rng.shuffle(m)
    if zero or (zero is None and rng.random() < 0.2):
        for i in rng.sample(range(n), rng.randint(1, n)):
            m[i] = 0
    wd = rng.choice([4, 8])
    np_ = lr1[0] * lr1[1] * lr1[2]
    val = (lambda: pal.r32(rng.randint(1, pal.n))) if wd == 4 else (lambda: rng.randint(1, pal.n))
    nb = n * sum(nv)
    return dict(
        hdr=dict(wdsz=wd, lr1=list(lr1), nelt=n, nelf=n, time=time_text(rng.choice([0.0, 2.5, -1e-3, 1e5, -rng.random(), 1e200 / 7, 1e-99])),
                 istep=rng.choice([0, 7, 123456789]), fid=rng.choice([0, 0, 3, 123456]), nf=rng.choice([1, 1, 4, 654321]),
                 nv=list(nv), extra=rng.choice(["", "", " 1.0000000E+00 F", "    1.0E+00 T"])),
        endian=rng.choice(["little", "big"]), map=m,
        blk=[[val() for _ in range(np_)] for _ in range(nb)],
        trl=[pal.r32(rng.randint(1, pal.n)) for _ in range(2 * nb)] if ndim == 3 and rng.random() < 0.8 else [])


NAMES = ["x", "y", "z", "ux", "uy", "uz", "vx", "vy", "vz", "p", "pressure", "t", "temperature", "s01", "s02", "s03"]
MANY = ["s%02d" % i for i in range(1, 100)]


# ------------------------------------------------------------------ trace generators
def roundtrip_traces(ctx, pal, hists, nrandom):
    """C01: histories from the model, and random longer ones"""
    rng = ctx.rng
    out = []
    for i, h in enumerate(hists):
        w = World(ctx, pal, f"hist{i}")
        sh = shape(rng)
        for r in ("a", "b"):
            w.new(r, sh if rng.random() < 0.5 else shape(rng), rng)
        for o in h:
            step(w, o, rng)
            if w.dead:
                break
        out.append(w.trace())
    for i in range(nrandom):
        w = World(ctx, pal, f"rnd{i}")
        for r in ("a", "b", "c"):
            w.new(r, shape(rng, big=rng.random() < 0.15), rng, rng.choice(["float64", "float64", "float32"]))
        for _ in range(rng.randint(8, 14)):
            k = rng.choice(["write", "write", "read", "read", "wdsz", "endian", "reorder", "zeromap", "time"])
            o = dict(op=k, r=rng.choice("abc"), fn=rng.choice("fgh"), dt=rng.choice(["f8", "f8", "f4"]),
                     v=dict(wdsz=rng.choice([4, 8, 8, 5]), endian=rng.choice(["little", "big"])).get(k))
            step(w, o, rng)
            if w.dead:
                break
        out.append(w.trace())
    return out


def step(w, o, rng):
    k = o["op"]
    if k == "write":
        w.write(o["r"], o["fn"])
    elif k == "read":
        if o["fn"] in os.listdir(w.dir):
            w.read(o["fn"], o["r"], o["dt"])
    elif k == "wdsz":
        w.set(o["r"], "wdsz", o["v"])
    elif k == "endian":
        w.set(o["r"], "endian", o["v"])
    elif k == "time":
        w.set(o["r"], "time", time_text(rng.random() * 100))
    elif k == "reorder":
        m = [int(x) for x in w.reg[o["r"]].elmap]
        rng.shuffle(m)
        w.set(o["r"], "elmap", m)
    elif k == "zeromap":
        # a foreign file with an unusable map, of its own content
        w.put(o["fn"], random_file(rng, w.pal, zero=True))


def decode_traces(ctx, pal, n):
    """C02: foreign files"""
    rng = ctx.rng
    out = []
    for i in range(n):
        w = World(ctx, pal, f"dec{i}")
        sh = shape(rng, big=i % 10 == 0)
        if i % 25 == 1:
            sh = (2, [2, 2, 1], [0, 0, rng.randint(0, 1), 0, rng.choice([10, 12, 25])], 2)
        if i % 25 == 2:
            sh = (3, [rng.choice([10, 12]), 2, 2], [0, 3, 0, 0, 1], 2)
        for f in "fg":
            w.put(f, random_file(rng, pal, sh if f == "f" else None))
            w.header(f, as_file=rng.random() < 0.5)
            w.read(f, "a", rng.choice(["f8", "f8", "f4"]))
            w.read(f, "b", "f8")
        w.header("f")
        out.append(w.trace())
    return out


def layout_traces(ctx, pal, n):
    """C03: every combination of variables, word size and byte order is written"""
    rng = ctx.rng
    combos = [(nd, nv, wd, en) for nd in (2, 3) for nv in range(1, 32) for wd in (4, 8) for en in ("little", "big")]
    rng.shuffle(combos)
    out = []
    for i in range(n):
        w = World(ctx, pal, f"lay{i}")
        for j in range(3):
            nd, bits, wd, en = combos[(3 * i + j) % len(combos)]
            _, lr1, _, ne = shape(rng, big=i % 17 == 0)
            lr1[2] = 1 if nd == 2 else rng.randint(2, 3)
            nv = [nd * (bits & 1), nd * (bits >> 1 & 1), bits >> 2 & 1, bits >> 3 & 1,
                  (bits >> 4 & 1) * rng.choice([1, 2, 3, 11 if ne < 3 else 2])]
            w.new("a", (nd, lr1, nv, ne), rng, rng.choice(["float64", "float64", "float32"]))
            w.set("a", "wdsz", wd)
            w.set("a", "endian", en)
            w.write("a", rng.choice("fg"))
        out.append(w.trace())
    return out


def skip_traces(ctx, pal, n):
    rng = ctx.rng
    out = []
    for i in range(n):
        w = World(ctx, pal, f"skip{i}")
        ndim, lr1, nv, ne = shape(rng)
        if rng.random() < 0.7:
            nv = [ndim, ndim, 1, 1, rng.randint(0, 3)]
            nv = [x if rng.random() < 0.85 else 0 for x in nv]
            if not any(nv):
                nv[2] = 1
        many = i % 5 == 0
        if many:
            nv[4] = rng.choice([rng.randint(9, 14), rng.randint(15, 99)])
            lr1 = [2, 2, 1 if ndim == 2 else 2]
            ne = 2
        w.put("f", random_file(rng, pal, (ndim, lr1, nv, min(ne, 3))))
        w.read("f", "a")
        for _ in range(6):
            m = rng.random()
            if many and m < 0.7:
                k = rng.choice([1, 2, 9, 10, nv[4], rng.randint(1, min(99, nv[4] + 1))])
                sk = rng.choice([MANY[:k], MANY[k - 1:], [MANY[k - 1]], rng.sample(MANY[:nv[4] + 1], min(k, nv[4]))])
                sk = sk + rng.choice([[], rng.sample(NAMES, 2)])
            elif m < 0.25:
                sk = rng.sample(NAMES, rng.randint(1, len(NAMES)))
            elif m < 0.5:
                grp = [["x", "y", "z"][:ndim], rng.choice([["ux", "uy", "uz"], ["vx", "vy", "vz"], ["ux", "vy", "uz"]])[:ndim],
                       [rng.choice(["p", "pressure"])], [rng.choice(["t", "temperature"])], ["s01", "s02", "s03"]]
                sk = [y for x in grp if rng.random() < 0.5 for y in x]
            else:
                sk = rng.sample(NAMES, rng.randint(1, 4))
            w.read("f", "b", rng.choice(["f8", "f8", "f4"]), sk)
        out.append(w.trace())
    return out


def damage_traces(ctx, pal, n):
    """every truncation point of small files; unrecognisable tags; short headers"""
    rng = ctx.rng
    out = []
    for i in range(n):
        w = World(ctx, pal, f"cut{i}")
        ndim = rng.choice([2, 3])
        lr1 = [2, 2, 1 if ndim == 2 else 2]
        nv = [ndim * rng.randint(0, 1), ndim * rng.randint(0, 1), rng.randint(0, 1), rng.randint(0, 1), rng.randint(0, 2)]
        if not any(nv):
            nv[rng.choice([2, 3])] = 1
        F = random_file(rng, pal, (ndim, lr1, nv, rng.randint(1, 2)))
        b = encode(F, pal)
        sz = len(b)
        pts = sorted(set(range(0, sz + 1)) if sz < 420 or ctx.thorough else
                     set(list(range(0, 150)) + [rng.randint(150, sz) for _ in range(150)] + list(range(sz - 100, sz + 1))))
        if not ctx.thorough:
            pts = [p for p in pts if p in (0, sz) or rng.random() < 0.4]
        for k in sorted(pts, reverse=True):
            if k == sz:
                w.put("f", F)
            else:
                w.cut("f", k)
            sk = [] if rng.random() < 0.6 else rng.sample(NAMES, rng.randint(1, 5))
            w.read("f", "a", "f8", sk)
        # tags
        for _ in range(12):
            tag = rng.choice([b"\0\0\0\0", b"\xff\xff\xff\xff", struct.pack("<f", -6.54321), struct.pack("<f", 6.5),
                              struct.pack(">f", 65.4321), struct.pack("<d", 6.54321)[4:], rng.randbytes(4)])
            if any(abs(struct.unpack(o, tag)[0] - 6.54321) < 1e-3 for o in ("<f", ">f")):
                continue
            w.badfile("g", b[:132] + tag + b[136:])
        toks = b[:132].split()
        for _ in range(6):
            w.badfile("g", b" ".join(toks[:rng.randint(0, 11)]).ljust(132) + b[132:])
        out.append(w.trace())
    return out


def failsafe_traces(ctx, pal, n):
    """C08, field part"""
    rng = ctx.rng
    out = []
    for i in range(n):
        w = World(ctx, pal, f"safe{i}")
        w.new("a", shape(rng), rng)
        w.new("b", shape(rng), rng)
        w.write("a", "f")
        w.write("a", "f")
        w.write("a", "g")
        w.reg["c"] = copy.deepcopy(w.reg["a"])
        w.ev.append(dict(op="new", r="c", post=project(w.reg["c"], pal), st="ok"))
        w.write("c", "h")
        good = w.reg["b"].wdsz
        w.set("b", "wdsz", rng.choice([0, 1, 2, 3, 5, 16]))
        w.write("b", "f")
        w.read("f", "d")
        w.write("b", "k")
        w.set("b", "wdsz", good)
        w.write("b", "f")
        w.write("a", "f")
        w.read("f", "d")
        out.append(w.trace())
    return out
