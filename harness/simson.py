"""Driver for SIMSON files. Numbers are integers in units of 1/1024."""
import contextlib
import io
import os
import struct
from itertools import product

import numpy as np

from . import fields, meshes
from .core import call

U = 1024.0


def rec(words):
    n = sum(8 if k == "d" else 4 for k, _ in words)
    return [("m", n)] + words + [("m", n)]


def ints(s):
    return [("i", v) for v in s]


def nums(s):
    return [("d", v) for v in s]


def encode(words, endian):
    e = "<" if endian == "little" else ">"
    return b"".join(struct.pack(e + "d", v / U) if k == "d" else struct.pack(e + "i", v) for k, v in words)


def number(rng):
    return rng.choice([0, 1, -1, rng.randint(-2000, 2000), rng.randint(-10 ** 6, 10 ** 6), rng.randint(-2 ** 29, 2 ** 29)])


def q(a):
    return meshes.qarr(a, 1 / U)


def cuts(rng, size, mode):
    """where to cut a file of `size` bytes"""
    if mode == "whole":
        return [-1]
    c = [rng.randrange(size) for _ in range(4)] + [size - rng.randint(1, 4), size - rng.randint(5, 13), rng.randint(0, min(60, size - 1))]
    return sorted(set(c))


def read(fn, name):
    with contextlib.redirect_stdout(io.StringIO()):
        st, v = call(fn, name)
    if st == "ok" and isinstance(v, int) and v < 0:
        return "err", f"returned {v}"
    return st, v


def plane_events(ctx, mode):
    import pymech.simsonsuite as ss

    rng = ctx.rng
    nd = rng.choice([1, 2, 2, 3])
    top = {1: 12, 2: 7, 3: 4}[nd]
    nn = [rng.randint(1, top) for _ in range(nd)]
    if rng.random() < 0.03:
        nn = [rng.choice([251, 700, 1300])] + [1] * (nd - 1)
    nt = int(np.prod(nn))
    x = [[number(rng) for _ in range(nt)] for _ in range(nd)]
    d = [number(rng) for _ in range(nt)]
    words = rec(ints(nn)) + sum((rec(nums(a)) for a in x), []) + rec(nums(d))
    endian = rng.choice(["little", "big"])
    raw = encode(words, endian)
    name = ctx.path("plane")
    for cut in cuts(rng, len(raw), mode):
        with open(name, "wb") as f:
            f.write(raw if cut < 0 else raw[:cut])
        st, v = read(ss.readplane, name)
        e = dict(op="plane", nn=nn, x=x, d=d, words=[dict(k=k, v=v) for k, v in words], cut=cut, st=st, err="", endian=endian,
                 rnd=0, rnn=[], rx=[], rd=[], xshape=[], dshape=[], same=os.path.getsize(name) == (len(raw) if cut < 0 else cut))
        if st == "ok":
            try:
                rx, rd, rnn, rnd = v
                rx = [np.asarray(rx)] if nd == 1 else [np.asarray(a) for a in rx]
                e.update(rnd=fields.as_int(rnd), rnn=fields.as_ints(rnn), rx=[q(a.ravel("F")) for a in rx], rd=q(np.asarray(rd).ravel("F")),
                         xshape=[fields.as_ints(a.shape) for a in rx], dshape=fields.as_ints(np.asarray(rd).shape))
            except Exception as ex:  # noqa: BLE001
                e["err"] = repr(ex)
        else:
            e["err"] = v
        yield e


def velocity_events(ctx, mode, ns=None):
    import pymech.simsonsuite as ss

    rng = ctx.rng
    n = [rng.choice([2, 4, 6]), rng.randint(2, 7), rng.choice([1, 2, 4, 6])]
    if ns is None:
        ns = rng.choice([0, 0, 1, 2, 3])
    if ns > 3:
        n = [2, 2, 1]
    fl = rng.choice([-1, -2, 6, 7, 8, 9, 20, -20, 1, 2, 3, -3, 10])
    h = dict(re=number(rng), xl=n[0] * rng.randint(1, 3000), zl=2 * n[2] * rng.randint(1, 3000), t=number(rng),
             pr=[number(rng) for _ in range(ns)], m=[number(rng) for _ in range(ns)], n=n, sym=rng.choice([0, 1]), fl=fl,
             dstar=2 ** rng.randint(7, 12), extra=[])
    h["extra"] = [number(rng) for _ in range({-1: 1, -2: 2, 6: 4, 7: 4, 8: 4, 9: 4, 20: ns, -20: ns}.get(fl, 0))]
    fluct = rng.random() < 0.5
    big = lambda: rng.randint(-30000, 30000)     # noqa: E731
    c = [[[[(big() if (fluct and (ix > 1 or z > 0)) or (ix == 0 and z == 0) else 0) for ix in range(n[0])]
           for _ in range(n[1])] for z in range(n[2])] for _ in range(3 + ns)]
    words = rec([("d", h["re"]), ("i", 0), ("d", h["xl"]), ("d", h["zl"]), ("d", h["t"]), ("d", 0)]
                + nums([w for p in zip(h["pr"], h["m"]) for w in p])) + rec(ints(n + [h["sym"]])) + rec([("i", fl), ("d", h["dstar"])])
    if fl in (-1, -2, 6, 7, 8, 9, 20, -20):
        words += rec(nums(h["extra"]))
    for v, z, y in product(range(3 + ns), range(n[2]), range(n[1])):
        words += rec(nums(c[v][z][y]))
    endian = rng.choice(["little", "big"])
    raw = encode(words, endian)
    name = ctx.path("velocity")
    for cut in cuts(rng, len(raw), mode):
        with open(name, "wb") as f:
            f.write(raw if cut < 0 else raw[:cut])
        st, d = read(ss.readdns, name)
        e = dict(op="velocity", h=h, c=c, words=[dict(k=k, v=v) for k, v in words], cut=cut, st=st, err="", endian=endian, rend="",
                 lr1=[], nel=-1, elems=-1, ndim=-1, wdsz=-1, nv=[], time=0, gx=[], gy=[], gz=[], ytop=0, vel=[], scal=[], even=True,
                 same=os.path.getsize(name) == (len(raw) if cut < 0 else cut))
        if st == "ok":
            try:
                el = d.elem[0]
                y = np.asarray(el.pos[1])
                ly = 2 / (h["dstar"] / U)
                e.update(lr1=fields.as_ints(d.lr1), nel=fields.as_int(d.nel), elems=len(d.elem), ndim=fields.as_int(d.ndim),
                         wdsz=fields.as_int(d.wdsz), nv=fields.as_ints(d.var), time=q([d.time])[0], rend=str(d.endian),
                         gx=q(el.pos[0]), gz=q(el.pos[2]), ytop=q([y.max()])[0],
                         gy=[int(v) for v in np.rint(np.clip((1 - 2 * y / ly) * 10000, -1e6, 1e6)).ravel()],
                         vel=[q(el.vel[i].mean(axis=(0, 2))) for i in range(3)],
                         scal=[q(el.scal[i].mean(axis=(0, 2))) for i in range(len(el.scal))])
                if not fluct:
                    a = np.concatenate([el.vel, el.scal])
                    e["even"] = bool(np.allclose(a, a.mean(axis=(1, 3), keepdims=True), atol=1e-9))
            except Exception as ex:  # noqa: BLE001
                e["err"] = repr(ex)
        else:
            e["err"] = d
        yield e


def rng_scalars(ctx):
    return ctx.rng.randint(4, 98)


def traces(ctx, n, mode="whole"):
    out = []
    for t in range(n):
        if mode == "whole" and t < 6:
            gen = velocity_events(ctx, mode, [100, 100, 100, 99, rng_scalars(ctx), 48][t])
        else:
            gen = (plane_events if ctx.rng.random() < 0.5 else velocity_events)(ctx, mode)
        out.append(dict(id=f"simson-{mode}-{t}", ev=list(gen)))
    return out
