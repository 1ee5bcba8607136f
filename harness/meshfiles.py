"""Driver for mesh files (.re2, .rea, .ma2)."""
import collections
import copy
import os
import struct
import sys

import numpy as np

from .core import call
from .fields import World, as_int, as_ints, relayout

AROUND = [0, 1, 3, 2, 4, 5, 7, 6]


class Palette:
    """Values closed under printing with 6 and 11 decimals."""

    def __init__(self, rng, nint=80, n=60, texts=True):
        base = {0.5, -1.0, -0.25, 0.1, 1 / 3, 3.14159265358979, -2.718281828, 1e-5, -1e10, 1.23456789012345e7,
                9.9999995, -1e-30, 1e30, 1.5e100, 6.54321, -123456.7}
        while len(base) < n:
            base.add(rng.choice([-1, 1]) * rng.random() * 10 ** rng.randint(-4, 4))
        base |= {float(i) for i in range(nint + 1)}
        base |= {float("%.11e" % v) for v in base}
        base |= {float("%.6e" % v) for v in base}
        base |= {float("%.11e" % v) for v in base}
        self.v = np.array(sorted(base))
        self.n = len(self.v)
        self.idx = {x: i + 1 for i, x in enumerate(self.v.tolist())}
        self.zero = self.idx[0.0]
        self.nint = nint
        self.single = [i + 1 for i, x in enumerate(self.v.tolist()) if abs(x) < 1e30 and float(np.float32(x)) == x]
        self.forms = {}      # index -> texts that can stand for it in 14 columns
        self.tok = {}
        for x, i in self.idx.items() if texts else ():
            for f in ("%.6e", "%.11e", "%.5E", "%.7E", "%.5f", "%.1f", "%g", "%.0f.", "%+.3f", "%.4e", "%.8f"):
                t = f % x
                if float(t) in self.idx and not (float(t) == 0 and t[0] == "-"):
                    j = self.idx[float(t)]
                    self.tok[t] = j
                    if len(t) <= 13:
                        self.forms.setdefault(j, set()).add(t)
        self.forms = {k: sorted(v) for k, v in self.forms.items()}

    def tab(self):
        f = self.v.tolist()
        return dict(zero=self.zero, h8l=[struct.pack("<d", x).hex() for x in f],
                    h8b=[struct.pack(">d", x).hex() for x in f],
                    int=[self.idx[float(i)] for i in range(self.nint + 1)], tok=self.tok,
                    r6=[self.idx[float("%.6e" % x)] for x in f], r11=[self.idx[float("%.11e" % x)] for x in f])

    def index(self, a):
        a = np.asarray(a, dtype=np.float64).ravel()
        p = np.clip(np.searchsorted(self.v, a), 0, self.n - 1)
        return [int(x) + 1 if ok else 0 for x, ok in zip(p, (self.v[p] == a))]

    def value(self, i):
        return float(self.v[i - 1])

    def any(self, rng):
        return rng.randint(1, self.n)

    def text(self, rng, i):
        return rng.choice(self.forms[i]) if i in self.forms else "%.6e" % self.value(i)


def project(d, pal):
    el = []
    nz = pal.zero
    for e in d.elem:
        pos = [pal.index(c) for c in np.asarray(e.pos)]
        cv = []
        ci = [pal.index(c) for c in e.curv]
        for i in range(12):
            t = str(e.ccurv[i])
            if t != "" or any(x != nz for x in ci[i]):
                cv.append(dict(i=i + 1, t=t, p=ci[i]))
        bc = []
        for b in range(len(e.bcs)):
            row = []
            for k in range(6):
                c = e.bcs[b, k]
                p = pal.index([c[3], c[4], c[5], c[6], c[7]])
                t, eo, fo = str(c[0]), int(c[1]), int(c[2])
                if t != "" or eo or fo or any(x != nz for x in p):
                    row.append(dict(k=k + 1, t=t, e=eo, f=fo, p=p))
            bc.append(row)
        el.append(dict(pos=pos, cv=cv, bc=bc))
    return dict(ndim=as_int(d.ndim), nel=as_int(d.nel), lr1=as_ints(d.lr1), nv=as_ints(d.var), nbc=as_int(d.nbc),
                ncurv=as_int(d.ncurv), wdsz=as_int(d.wdsz), endian=str(d.endian), elmap=as_ints(d.elmap), el=el)


def safe_project(d, pal):
    try:
        return project(d, pal)
    except Exception:  # noqa: BLE001
        return dict(ndim=-1, nel=-1, lr1=[], nv=[], nbc=-1, ncurv=-1, wdsz=-1, endian="?", elmap=[], el=[])


# ------------------------------------------------------------------ independent encoders
def enc_re2(F, pal, fill=None):
    o = "<" if F["endian"] == "little" else ">"
    b = bytearray(("#v002%9d%3d%9d this is the hdr" % (F["nel"], F["ndim"], F["nel"])).ljust(80).encode())
    b += struct.pack(o + "f", 6.54321)
    if fill is not None:        # the other elements of a large mesh
        at = len(b)
        rec = 8 * (1 + F["ndim"] * 2 ** F["ndim"])
        body = bytearray(fill * F["nel"])
        for n, g, e in zip(F["E"], F["grp"], F["geo"]):
            body[rec * (n - 1):rec * n] = bytes.fromhex(g) + b"".join(
                struct.pack(o + "%dd" % len(d), *(pal.value(i) for i in d)) for d in e)
        assert len(body) == rec * F["nel"] and at == 84
        b += body
    for g, e in zip(F["grp"], F["geo"]) if fill is None else ():
        b += bytes.fromhex(g)
        for d in e:
            b += struct.pack(o + "%dd" % len(d), *(pal.value(i) for i in d))
    b += struct.pack(o + "d", len(F["cv"]))
    for c in F["cv"]:
        b += struct.pack(o + "7d", c["e"], c["i"], *(pal.value(i) for i in c["p"])) + bytes.fromhex(c["x"])
    for s in F["bf"]:
        b += struct.pack(o + "d", len(s))
        for c in s:
            b += struct.pack(o + "7d", c["e"], c["k"], *(pal.value(i) for i in c["p"])) + c["t"].encode().ljust(8)
    return bytes(b)


def enc_ma2(F):
    o = "<" if F["endian"] == "little" else ">"
    b = bytearray(("#v001" + "%12d" * 7 % tuple(F["hdr"])).ljust(132).encode())
    b += struct.pack(o + "f", 6.54321)
    for r in F["rows"]:
        b += struct.pack(o + "%di" % len(r), *r)
    return bytes(b)


def enc_rea(rng, pal, C):
    """Lines of a foreign .rea file stating content C (dict ndim, nel, geo, cv, bf)."""
    nel, nd = C["nel"], C["ndim"]
    lay = 1 if nel < 1000 else 2
    ls = ["****** PARAMETERS *****", " 2.610000     NEKTON VERSION ", " %d DIMENSIONAL RUN" % nd]
    npar = rng.choice([0, 1, 5, 103, 118])
    ls.append(" %11d PARAMETERS FOLLOW" % npar)
    ls += ["  %.5f     p%03d" % (rng.random(), i + 1) for i in range(npar)]
    n = rng.choice([0, 4])
    ls.append("      %d  Lines of passive scalar data follows2 CONDUCT; 2RHOCP" % n)
    ls += ["   1.00000       1.00000       1.00000       1.00000       1.00000"] * n
    n = rng.choice([0, 13, 14])
    ls.append("  %d  LOGICAL SWITCHES FOLLOW" % n)
    ls += ["  T     IFFLOW"] * n
    ls.append("   5.00000       5.00000      -2.75000      -5.00000     XFAC,YFAC,XZERO,YZERO")
    ls.append(" ***** MESH DATA *****  6 lines are X,Y,Z;X,Y,Z. Columns corners 1-4;5-8")
    ls.append("   %d  %d   %d           NEL,NDIM,NELV" % (nel, nd, nel))
    for e, g in enumerate(C["geo"]):
        ls.append("            ELEMENT%11d [    1A]    GROUP     0" % (e + 1))
        for h in range(nd - 1):
            for d in range(nd):
                ls.append("".join(rng.choice(["  ", "    ", " "]) + pal.text(rng, i) for i in g[d][4 * h:4 * h + 4]))
    ls.append("  ***** CURVED SIDE DATA *****")
    ls.append(" %6d Curved sides follow IEDGE,IEL,CURVE(I),I=1,5, CCURVE" % len(C["cv"]))

    def num(i, w=14):
        t = pal.text(rng, i)
        return rng.choice([t.rjust(w), (" " + t).ljust(w), t.rjust(w - 1).ljust(w)]) if len(t) < w else t

    for c in C["cv"]:
        s = ("%3d%3d" if lay == 1 else "%2d%6d") % (c["i"], c["e"])
        ls.append(s + "".join(num(i) for i in c["p"]) + " " + c["t"])
    ls.append("  ***** BOUNDARY CONDITIONS *****")
    off = rng.choice([0, 0, 1]) if 0 < len(C["bf"]) < 3 else 0
    if off:
        ls.append("  ***** NO FLUID   BOUNDARY CONDITIONS *****")
    for b, s in enumerate(C["bf"], off):
        ls.append("  ***** %s BOUNDARY CONDITIONS *****" % (["FLUID  ", "THERMAL"] + ["PASSIVE SCALAR %4d" % i for i in range(1, 30)])[b])
        for e in range(nel):
            for k in range(2 * nd):
                c = s[e][k]
                ids = "%3d%3d" % (c["e"], c["f"]) if lay == 1 else rng.choice(["%6d" % (e + 1), "%5d%1d" % (e + 1, k + 1)])
                ls.append(" " + c["t"].ljust(3) + ids + "".join(num(i) for i in c["p"]))
    if len(C["bf"]) == 0:
        ls.append("  ***** NO FLUID   BOUNDARY CONDITIONS *****")
    if len(C["bf"]) + off < 2:
        ls.append("  ***** NO THERMAL BOUNDARY CONDITIONS *****")
    ls.append("    0 PRESOLVE/RESTART OPTIONS  *****")
    ls.append("  7         INITIAL CONDITIONS *****")
    ls += [" C Default"] * 7
    ls.append("  ***** DRIVE FORCE DATA ***** BODY FORCE, FLOW, Q")
    ls.append("  4                 Lines of Drive force data follow")
    ls += [" C"] * 4
    return ls


# ------------------------------------------------------------------ world
def guarded(fn):
    """Events whose object or file is missing (an earlier call failed) end the trace."""
    def g(self, a, *args):
        name = fn.__name__
        need = a in self.reg if name.startswith("write") else os.path.exists(self.fn(a))
        if self.dead or not need:
            self.dead = True
            return None
        return fn(self, a, *args)
    g.__name__ = fn.__name__
    return g


class MeshWorld(World):
    module = "Trace_MeshFile"

    def add(self, r, d):
        self.reg[r] = d
        self.ev.append(dict(op="new", r=r, post=safe_project(d, self.pal), st="ok"))

    def _image(self, f):
        try:
            with open(self.fn(f), "rb") as g:
                b = g.read()
        except OSError:
            b = b""
        return dict(h=b[:80].decode("latin-1"), b=b[80:].hex())

    def _image132(self, f):
        with open(self.fn(f), "rb") as g:
            b = g.read()
        return dict(h=b[:132].decode("latin-1"), b=b[132:].hex())

    def lines(self, f):
        try:
            with open(self.fn(f), "r", errors="replace") as g:
                return g.read().split("\n")[:-1]
        except OSError:
            return []

    @guarded
    def writere2(self, r, f):
        ev = dict(op="writere2", r=r, fn=f)
        st, _ = self._do(ev, self.nek.writere2, self.fn(f), self.reg[r])
        if st == "ok":
            ev["img"] = self._image(f)

    def putre2(self, f, F):
        with open(self.fn(f), "wb") as g:
            g.write(enc_re2(F, self.pal))
        self.ev.append(dict(op="putre2", fn=f, F=F, img=self._image(f), st="ok"))

    def _read(self, op, fun, f, r, **kw):
        ev = dict(op=op, fn=f, r=r, **kw)
        st, val = self._do(ev, fun, self.fn(f))
        if st == "ok":
            self.reg[r] = val
            ev["post"] = safe_project(val, self.pal)

    @guarded
    def readre2(self, f, r):
        self._read("readre2", self.nek.readre2, f, r)

    @guarded
    def writerea(self, r, f):
        ev = dict(op="writerea", r=r, fn=f)
        st, _ = self._do(ev, self.nek.writerea, self.fn(f), self.reg[r])
        if st == "ok":
            ev["lines"] = self.lines(f)

    def putrea(self, f, C):
        ls = enc_rea(self.ctx.rng, self.pal, C)
        with open(self.fn(f), "w") as g:
            g.write("\n".join(ls) + "\n")
        self.ev.append(dict(op="putrea", fn=f, lines=ls, st="ok"))

    @guarded
    def readrea(self, f, r):
        self._read("readrea", self.nek.readrea, f, r, sys=sys.byteorder)

    def same(self, f, g):
        if self.dead:
            return
        def rd(x):
            try:
                with open(self.fn(x), "rb") as h:
                    return h.read()
            except OSError:
                return x
        self.ev.append(dict(op="same", fn=f, gn=g, same=rd(f) == rd(g), st="ok"))

    def putma2(self, f, F):
        with open(self.fn(f), "wb") as g:
            g.write(enc_ma2(F))
        self.ev.append(dict(op="putma2", fn=f, F=F, img=self._image132(f), st="ok"))

    @guarded
    def readma2(self, f):
        ev = dict(op="readma2", fn=f, r="")
        st, val = self._do(ev, self.nek.readma2, self.fn(f))
        if st == "ok":
            try:
                cell, proc = val
                ev["cell"] = [as_ints(x) for x in cell]
                ev["proc"] = as_ints(proc)
            except Exception:  # noqa: BLE001
                ev["cell"], ev["proc"] = [], []

    def bad(self, kind, f, content):
        with open(self.fn(f), "wb") as g:
            g.write(content)
        ev = dict(op="badfile", fn=f, r="")
        self._do(ev, dict(re2=self.nek.readre2, ma2=self.nek.readma2)[kind], self.fn(f))


# ------------------------------------------------------------------ large .rea files through a window
def window_project(d, pal, E):
    part = copy.copy(d)
    part.elem = [d.elem[e - 1] for e in E]
    r = project(part, pal)
    m = np.asarray(d.elmap).tolist()
    runs = []
    for x in m:
        if runs and x == sum(runs[-1]):
            runs[-1][1] += 1
        elif len(runs) < 50:
            runs.append([as_int(x), 1])
    carry = [i for i, e in enumerate(d.elem, 1)
             if any(e.ccurv) or e.curv.any() or e.bcs.tobytes().strip(b"\0")][:200]
    r.update(nel=as_int(d.nel) if d.nel == len(d.elem) else -1, elmap=runs, E=list(E), carry=carry)
    return r


def window_lines(fn, E, ndim=2):
    """Pick out of a .rea file the lines that concern the elements E."""
    need, tx, stars = set(), {}, []
    head = None
    n = 0
    last = collections.deque(maxlen=60)      # the closing sections
    with open(fn) as f:
        for n, ln in enumerate(f, 1):
            ln = ln.rstrip("\n")
            last.append((n, ln))
            if head is None:
                tx[n] = ln
                if "NEL,NDIM" in ln:
                    head = n
                    nel = int(ln.split()[0])
                    per = 1 + ndim * (ndim - 1)
                    for e in E:
                        need.update(range(head + per * (e - 1) + 1, head + per * e + 1))
                    side = head + per * nel + 2
                continue
            if n == side:
                need.update(range(n, n + 4 + int(ln.split()[0])))
            if n > side and "*" in ln:
                stars.append(n)
                tx[n] = ln
                if "BOUNDARY" in ln.split()[2:] and "NO" not in ln.split():
                    for e in E:
                        need.update(range(n + 2 * ndim * (e - 1) + 1, n + 2 * ndim * e + 1))
            if n in need:
                tx[n] = ln
    tx.update(last)
    return dict(nl=n, tx={str(k): v for k, v in tx.items()}, stars=stars[:100])


def window_sample(rng, n):
    E = {1, 2, n - 1, n, n // 2}
    for b in (9, 10, 99, 999, 1000, 9999, 10000, 32767, 32768, 65535, 65536, 99999, 100000, 999999, 1000000):
        if 1 <= b <= n:
            E.add(b)
    E |= {rng.randint(1, n) for _ in range(6)}
    return sorted(E)


def window_foreign(rng, pal, fn, n, E, nbc):
    P = lambda: [pal.any(rng) if rng.random() < 0.7 else pal.zero for _ in range(5)]
    lay = 1 if n < 1000 else 2 if n < 1000000 else 3
    C = dict(ndim=2, nel=1, geo=[], cv=[], bf=[])
    head = enc_rea(rng, pal, C)
    k = [i for i, x in enumerate(head) if "NEL,NDIM" in x][0]
    tail = head[[i for i, x in enumerate(head) if "PRESOLVE" in x][0]:]
    forms = dict((i, [t for t in f if len(t) < 13]) for i, f in pal.forms.items())

    def num(w):
        while True:
            i = pal.any(rng) if rng.random() < 0.7 else pal.zero
            if forms.get(i):
                return (" " + rng.choice(forms[i])).rjust(w) if rng.random() < 0.5 else (" " + rng.choice(forms[i])).ljust(w)

    S = set(E)
    ncv = 0
    with open(fn, "w") as f:
        f.write("\n".join(head[:k]) + "\n   %d  2   %d           NEL,NDIM,NELV\n" % (n, n))
        blank = "  0.0 1.0 1.0 0.0\n  0.0 0.0 1.0 1.0\n"
        for e in range(1, n + 1):
            f.write("            ELEMENT%11d [    1A]    GROUP     0\n" % e)
            f.write("".join("".join(num(14) for _ in range(4)) + "\n" for _ in range(2)) if e in S else blank)
        rows = []
        for e in E:
            for i in rng.sample(range(1, 5), rng.choice([0, 1, 2])):
                rows.append(("%3d%3d", "%2d%6d", "%2d%10d")[lay - 1] % (i, e) + "".join(num(14) for _ in range(5)) + " " + rng.choice("mCs"))
        rng.shuffle(rows)
        f.write("  ***** CURVED SIDE DATA *****\n %10d Curved sides follow IEDGE,IEL,CURVE(I),I=1,5, CCURVE\n" % len(rows))
        f.write("".join(x + "\n" for x in rows) + "  ***** BOUNDARY CONDITIONS *****\n")
        for b in range(nbc):
            f.write("  ***** %s BOUNDARY CONDITIONS *****\n" % ["FLUID  ", "THERMAL"][b])
            for e in range(1, n + 1):
                for k in range(1, 5):
                    ids = ("%3d%3d" % (e % 1000, k), "%5d%1d" % (e % 100000, k), "%11d%1d" % (e, k))[lay - 1]
                    w = 18 if lay == 3 else 14
                    if e in S:
                        f.write(" " + rng.choice(["W", "v", "O", "SYM", "P", "E"]).ljust(3) + ids + "".join(num(w) for _ in range(5)) + "\n")
                    else:
                        f.write(" E  " + ids + ("   0.0            " + "    " * (lay == 3))[:w] * 5 + "\n")
        if nbc == 0:
            f.write("  ***** NO FLUID   BOUNDARY CONDITIONS *****\n")
        if nbc < 2:
            f.write("  ***** NO THERMAL BOUNDARY CONDITIONS *****\n")
        f.write("\n".join(tail) + "\n")


def window_traces(ctx, pal, plan):
    """plan = (number of elements, fields, from a foreign file or by the writer)"""
    rng, out = ctx.rng, []
    for n, nbc, kind in plan:
        w = MeshWorld(ctx, pal, f"win-{kind}{n}")
        E = window_sample(rng, n)
        fn = w.fn("f.rea")
        if kind == "foreign":
            window_foreign(rng, pal, fn, n, E, nbc)
            w.ev.append(dict(op="putreawin", fn="f", E=E, w=window_lines(fn, E), st="ok"))
        else:
            d = w.HexaData(2, n, [2, 2, 1], [2, 0, 0, 0, 0], nbc)
            src = random_mesh(w, rng, nel=len(E), ndim=2, nbc=nbc, dense=0.5)
            for e, x in zip(E, src.elem):
                d.elem[e - 1] = x
                for c in x.bcs.ravel():
                    if c[0] != "":
                        c[1] = e
            d.ncurv = src.ncurv
            w.ev.append(dict(op="newwin", r="a", post=window_project(d, pal, E), st="ok"))
            ev = dict(op="writereawin", r="a", fn="f")
            ev["st"], _ = call(w.nek.writerea, fn, d, timeout=500)
            del d
            if ev["st"] == "ok":
                try:
                    ev["w"] = window_lines(fn, E)
                except Exception:  # noqa: BLE001
                    ev["w"] = dict(nl=0, tx={}, stars=[])
            w.ev.append(ev)
            if ev["st"] != "ok":
                out.append(w.trace())
                continue
        ev = dict(op="readreawin", r="b", fn="f", sys=sys.byteorder)
        ev["st"], d = call(w.nek.readrea, fn, timeout=500)
        if ev["st"] == "ok":
            try:
                ev["post"] = window_project(d, pal, E)
            except Exception:  # noqa: BLE001
                ev["post"] = dict(ndim=-1, nel=-1, lr1=[], nv=[], nbc=-1, ncurv=-1, endian="?", elmap=[], carry=[], E=E, el=[])
        del d
        w.ev.append(ev)
        out.append(w.trace())
    return out


def window_bytes(fn, E, ndim):
    with open(fn, "rb") as f:
        b = f.read()
    rec = 8 * (1 + ndim * 2 ** ndim)
    n = int(b[5:14]) if b[5:14].strip().isdigit() else 0
    return dict(head=b[:80].decode("latin-1"), size=len(b), tag=b[80:84].hex(),
                geo=[b[84 + rec * (e - 1):84 + rec * e].hex() for e in E], tail=b[84 + rec * n:][:200000].hex())


def re2_window_traces(ctx, pal, plan):
    rng, out = ctx.rng, []
    for n, ndim, kind in plan:
        w = MeshWorld(ctx, pal, f"win2-{kind}{n}")
        E = window_sample(rng, n)
        fn = w.fn("f.re2")
        if kind == "foreign":
            F = random_re2(rng, pal, nel=len(E), ndim=ndim)
            for c in F["cv"] + [c for s in F["bf"] for c in s]:
                c["e"] = E[c["e"] - 1]
            F.update(nel=n, E=E)
            rec = 8 * (1 + ndim * 2 ** ndim)
            with open(fn, "wb") as f:
                f.write(enc_re2(F, pal, fill=b"\0" * rec))
            w.ev.append(dict(op="putre2win", fn="f", F=F, w=window_bytes(fn, E, ndim), st="ok"))
        else:
            d = w.HexaData(ndim, n, [2, 2, ndim - 1], [ndim, 0, 0, 0, 0], 2)
            src = random_mesh(w, rng, nel=len(E), ndim=ndim, nbc=2, dense=0.5)
            for e, x in zip(E, src.elem):
                d.elem[e - 1] = x
                for c in x.bcs.ravel():
                    if c[0] != "":
                        c[1] = e
            d.ncurv, d.endian = src.ncurv, src.endian
            w.ev.append(dict(op="newwin", r="a", post=window_project(d, pal, E), st="ok"))
            ev = dict(op="writere2win", r="a", fn="f")
            ev["st"], _ = call(w.nek.writere2, fn, d, timeout=200)
            del d
            w.ev.append(ev)
            if ev["st"] != "ok":
                out.append(w.trace())
                continue
            ev["w"] = window_bytes(fn, E, ndim)
        ev = dict(op="readre2win", r="b", fn="f")
        ev["st"], d = call(w.nek.readre2, fn, timeout=200)
        if ev["st"] == "ok":
            try:
                ev["post"] = window_project(d, pal, E)
            except Exception:  # noqa: BLE001
                ev["post"] = dict(ndim=-1, nel=-1, lr1=[], nv=[], nbc=-1, ncurv=-1, endian="?", elmap=[], carry=[], E=E, el=[])
        w.ev.append(ev)
        out.append(w.trace())
    return out


TYPES = ["", "", "E", "E", "P", "W", "v", "O", "SYM", "int", "sl", "ms", "on", "t", "f", "ws", "A", "MSI", "ON", "con"]


def generated_traces(ctx, pal, hists):
    """Histories of the specification's own transition relation, replayed in the real code."""
    out = []
    val = [float(i) for i in range(9)]
    for t, h in enumerate(hists):
        w = MeshWorld(ctx, pal, f"gen-{t}")
        v = val + [pal.value(pal.any(ctx.rng))]
        x = h[0]
        nd, kind = x["nd"], {}
        for r in "ab":
            d = w.HexaData(nd, x["nel"], [2, 2, nd - 1], [nd, 0, 0, 0, 0], x["nbc"])
            d.wdsz, d.endian, d.elmap = 8, "little", np.arange(1, x["nel"] + 1)
            for e, el in enumerate(d.elem, 1):
                for a in range(1, nd + 1):
                    el.pos[a - 1].flat[:] = [v[(3 * e + 2 * a + i) % 10] for i in range(1, 2 ** nd + 1)]
            w.add(r, d)
        p1 = [v[i - 1] for i in (2, 3, 1, 10, 4)]
        for x in h[1:]:
            if w.dead:
                break
            if x["op"] == "write":
                kind[x["fn"]] = x["k"]
                getattr(w, "write" + x["k"])(x["r"], x["fn"])
            elif x["op"] == "read":
                getattr(w, "read" + kind[x["fn"]])(x["fn"], x["r"])
            else:
                d = w.reg[x["r"]]
                if x["op"] == "endian":
                    d.endian = "big" if d.endian == "little" else "little"
                elif x["op"] == "cv":
                    el = d.elem[x["e"] - 1]
                    el.ccurv[x["i"] - 1] = x["t"]
                    el.curv[x["i"] - 1] = p1
                    d.ncurv = sum(c != "" for e in d.elem for c in e.ccurv)
                else:
                    c = d.elem[x["e"] - 1].bcs[x["b"] - 1, x["k"] - 1]
                    c[0], c[1], c[2] = x["t"], x["e"], x["k"]
                    for j in range(5):
                        c[3 + j] = 0.0 if x["z"] else p1[j]
                w.add(x["r"], d)
        out.append(w.trace())
    return out


def random_mesh(w, rng, nel=None, ndim=None, nbc=None, lr1=None, types=TYPES, dtype="float64", dense=0.6):
    pal = w.pal
    ndim = ndim or rng.choice([2, 3])
    nel = nel or rng.choice([1, 1, 2, 3, 4, 6])
    nbc = rng.choice([0, 1, 1, 2, 3, 5]) if nbc is None else nbc
    nv = [ndim, rng.choice([0, ndim]), rng.choice([0, 1]), rng.choice([0, 1]), rng.choice([0, 2])]
    d = w.HexaData(ndim, nel, lr1 or [2, 2, ndim - 1], nv, nbc, dtype)
    val = (lambda: pal.value(rng.choice(pal.single))) if dtype == "float32" else (lambda: pal.value(pal.any(rng)))
    for i, e in enumerate(d.elem):
        for c in range(ndim):
            e.pos[c] = np.array([val() for _ in range(e.pos[c].size)]).reshape(e.pos[c].shape)
        if rng.random() < dense:
            for ed in rng.sample(range(4 if ndim == 2 else 12), rng.randint(1, 4)):
                e.ccurv[ed] = rng.choice("mCs")
                e.curv[ed] = [val() if rng.random() < 0.7 else 0.0 for _ in range(5)]
                d.ncurv += 1
        for b in range(nbc):
            for k in range(2 * ndim):
                t = rng.choice(types)
                if t == "":
                    continue
                e.bcs[b, k][0] = t
                if rng.random() < 0.85:
                    e.bcs[b, k][1] = i + 1
                    e.bcs[b, k][2] = k + 1
                for j in range(5):
                    e.bcs[b, k][3 + j] = val() if rng.random() < 0.6 else 0.0
                if t in ("E", "P") and rng.random() < 0.8:
                    e.bcs[b, k][3] = rng.randint(1, min(nel, pal.nint))
                    e.bcs[b, k][4] = rng.randint(1, 2 * ndim)
    if rng.random() < 0.2:
        d.ncurv = rng.choice([0, d.ncurv + 1])
    if rng.random() < 0.3:
        relayout(d, rng, ("pos",))
    d.endian = rng.choice(["little", "big"])
    d.wdsz = rng.choice([4, 8])
    m = list(range(1, nel + 1))
    if rng.random() < 0.5:
        rng.shuffle(m)
    d.elmap = np.array(m, dtype=np.int32)
    return d


def random_re2(rng, pal, nel=None, ndim=None):
    nd = ndim or rng.choice([2, 3])
    nel = nel or rng.choice([1, 2, 3, 5])
    nc = 2 ** nd
    P = lambda: [pal.any(rng) if rng.random() < 0.7 else pal.zero for _ in range(5)]
    cv = []
    for e in range(1, nel + 1):
        for i in rng.sample(range(1, 5 if nd == 2 else 13), rng.choice([0, 1, 2, 4])):
            t = rng.choice("mCs")
            junk = rng.choice([b"\0" * 7, b" " * 7, b"\0\0\0\0\0\xe0?", rng.randbytes(7)])
            cv.append(dict(e=e, i=i, p=P(), t=t, x=(t.encode() + junk).hex()))
    rng.shuffle(cv)
    bf = []
    for _ in range(rng.choice([0, 1, 1, 2, 3, 5, 12])):
        s = [dict(e=e, k=k, p=P(), t=rng.choice([t for t in TYPES if t])) for e in range(1, nel + 1)
             for k in range(1, 2 * nd + 1) if rng.random() < 0.5]
        rng.shuffle(s)
        bf.append(s)
    return dict(nel=nel, ndim=nd, endian=rng.choice(["little", "big"]),
                grp=[rng.choice(["00" * 8, rng.randbytes(8).hex()]) for _ in range(nel)],
                geo=[[[pal.any(rng) for _ in range(nc)] for _ in range(nd)] for _ in range(nel)], cv=cv, bf=bf)


def random_rea(rng, pal, nel=None):
    nd = rng.choice([2, 3]) if not nel or nel < 100 else 2
    nel = nel or rng.choice([1, 2, 3, 5])
    nc = 2 ** nd
    P = lambda: [pal.any(rng) if rng.random() < 0.7 else pal.zero for _ in range(5)]
    cv = [dict(e=e, i=i, p=P(), t=rng.choice("mCs")) for e in range(1, nel + 1)
          for i in rng.sample(range(1, 5 if nd == 2 else 13), rng.choice([0, 0, 1, 3]) if nel < 100 else int(rng.random() < 0.05))]
    rng.shuffle(cv)
    bf = []
    for _ in range(rng.choice([0, 1, 1, 2, 3, 5, 12]) if nel < 100 else 1):
        s = []
        for e in range(1, nel + 1):
            row = []
            for k in range(1, 2 * nd + 1):
                t = rng.choice(TYPES[2:])
                c = dict(k=k, t=t, e=e % 1000, f=k, p=P())
                if t == "E":
                    c["p"][0] = rng.choice([pal.zero, pal.idx[float(rng.randint(1, min(nel, pal.nint)))]])
                row.append(c)
            s.append(row)
        bf.append(s)
    return dict(nel=nel, ndim=nd, geo=[[[pal.any(rng) for _ in range(nc)] for _ in range(nd)] for _ in range(nel)],
                cv=cv, bf=bf)


def random_ma2(rng, nel=None):
    nv = rng.choice([4, 8])
    nel = nel or rng.choice([1, 2, 3, 7])
    rows = [[rng.choice([0, 1, rng.randint(0, 5000), 32768 + rng.randint(0, 40000), 2 ** 31 - 1, 16777217])] +
            [rng.choice([rng.randint(1, 60), rng.randint(1, 2 ** 24 + 5), 2 ** 31 - 1, 16777217, rng.randint(1, 2 ** 31 - 1)])
             for _ in range(nv)] for _ in range(nel)]
    depth = max(0, nel.bit_length() - 1)
    return dict(nel=nel, nv=nv, hdr=[nel, nel - 1, depth, 2 ** depth, nv * nel, rng.randint(1, nv * nel), rng.randint(0, nel)],
                endian=rng.choice(["little", "big"]), rows=rows)


def again(w, rng, kind):
    """the mesh last read is changed by its owner; the file is read again, then rewritten in the same size and read"""
    if w.dead or "a" not in w.reg or not w.reg["a"].elem:
        return
    pal, d = w.pal, w.reg["a"]
    for _ in range(rng.randint(1, 3)):
        e = rng.choice(d.elem)
        e.pos[rng.randrange(d.ndim)].flat[rng.randrange(e.pos[0].size)] = pal.value(rng.choice(pal.single))
        if any(e.ccurv):
            e.curv[rng.choice([i for i, c in enumerate(e.ccurv) if c]), rng.randrange(5)] = pal.value(rng.choice(pal.single))
    w.add("a", d)
    read, write = getattr(w, "read" + kind), getattr(w, "write" + kind)
    if rng.random() < 0.5:
        read("h", "b")
    write("a", "h")
    read("h", "b")


# ------------------------------------------------------------------ trace generators
def re2_traces(ctx, pal, n):
    rng = ctx.rng
    out = []
    for i in range(n):
        w = MeshWorld(ctx, pal, f"re2-{i}")
        for _ in range(2):
            w.putre2("f", random_re2(rng, pal))
            w.readre2("f", "a")
        w.writere2("a", "g")
        w.readre2("g", "b")
        d = random_mesh(w, rng, dtype="float32" if i % 5 == 1 else "float64")
        if i % 6 == 0:
            d.lr1 = tuple(d.lr1)
        w.add("c", d)
        w.writere2("c", "f")
        w.readre2("f", "a")
        w.writere2("a", "h")
        w.readre2("h", "a")
        if i % 2:
            again(w, rng, "re2")
        if i % 4 == 0:
            w.add("d", random_mesh(w, rng, lr1=rng.choice([[3, 3, 1], [2, 3, 1], [3, 2, 1], [1, 1, 1]]), ndim=2, nbc=0, nel=2, dense=0))
            w.writere2("d", "f")
            w.readre2("f", "a")
            x = random_mesh(w, rng)
            x.var = [0, 0, 1, 0, 0]
            w.add("d", x)
            w.writere2("d", "k")
        out.append(w.trace())
    return out


def rea_traces(ctx, pal, n, big=()):
    rng = ctx.rng
    out = []
    for i in range(n):
        w = MeshWorld(ctx, pal, f"rea-{i}")
        for _ in range(2):
            w.putrea("f", random_rea(rng, pal))
            w.readrea("f", "a")
        w.writerea("a", "g")
        w.readrea("g", "b")
        w.add("c", random_mesh(w, rng, nbc=i % 6))
        w.writerea("c", "f")
        w.readrea("f", "a")
        w.writerea("a", "h")
        w.readrea("h", "a")
        if i % 2:
            again(w, rng, "rea")
        if i % 3 == 1:       # a mesh of higher order is written by its corners
            nd = rng.choice([2, 3])
            w.add("d", random_mesh(w, rng, nel=rng.choice([1, 2]), ndim=nd, nbc=i % 3,
                                   lr1=[rng.choice([2, 3, 4]), rng.choice([3, 4]), 1 if nd == 2 else rng.choice([2, 3])]))
            w.writerea("d", "f")
            w.readrea("f", "b")
        out.append(w.trace())
    for j, nel in enumerate(big):
        w = MeshWorld(ctx, pal, f"rea-big{nel}")
        w.putrea("f", random_rea(rng, pal, nel))
        w.readrea("f", "a")
        out.append(w.trace())
        w = MeshWorld(ctx, pal, f"rea-bigw{nel}")
        w.add("c", random_mesh(w, rng, nel=nel, ndim=2, nbc=1 + j % 2, dense=0.03))
        w.writerea("c", "g")
        w.readrea("g", "b")
        out.append(w.trace())
    return out


def ma2_traces(ctx, pal, n):
    rng = ctx.rng
    out = []
    for i in range(n):
        w = MeshWorld(ctx, pal, f"ma2-{i}")
        for _ in range(3):
            w.putma2("f", random_ma2(rng, rng.choice([None, None, 20]) ))
            w.readma2("f")
        out.append(w.trace())
    return out


def damage_traces(ctx, pal, n):
    rng = ctx.rng
    out = []
    tags = [b"\0\0\0\0", b"\xff\xff\xff\xff", struct.pack("<f", -6.54321), struct.pack("<f", 6.5), struct.pack(">f", 65.4321)]
    for i in range(n):
        w = MeshWorld(ctx, pal, f"cut2-{i}")
        F = random_re2(rng, pal, nel=rng.choice([1, 2]))
        b = enc_re2(F, pal)
        ends = {84 + len(F["grp"]) * 8 * (1 + F["ndim"] * 2 ** F["ndim"])}
        p = max(ends) + 8 + 64 * len(F["cv"])
        ends.add(p)
        for s in F["bf"]:
            p += 8 + 64 * len(s)
            ends.add(p)
        pts = {0, len(b)} | {q + o for q in ends for o in (-8, -1, 0, 1, 4, 8)}
        pts |= set(rng.sample(range(len(b)), min(len(b), ctx.pick(60, 400))))
        w.putre2("f", F)
        for k in sorted((p for p in pts if 0 <= p <= len(b)), reverse=True):
            if k < len(b):
                w.cut("f", k)
            w.readre2("f", "a")
        for t in tags + [rng.randbytes(4)]:
            if any(abs(struct.unpack(o, t)[0] - 6.54321) < 1e-3 for o in ("<f", ">f")):
                continue
            w.bad("re2", "g", b[:80] + t + b[84:])
        out.append(w.trace())
        w = MeshWorld(ctx, pal, f"cutm-{i}")
        F = random_ma2(rng, rng.choice([1, 2]))
        b = enc_ma2(F)
        w.putma2("f", F)
        for k in sorted({len(b), 0, 132, 133, 136, len(b) - 1, len(b) - 4} | set(rng.sample(range(len(b)), ctx.pick(30, 120))), reverse=True):
            if k < len(b):
                w.cut("f", k)
            w.readma2("f")
        for t in tags:
            w.bad("ma2", "g", b[:132] + t + b[136:])
        out.append(w.trace())
    return out


def failsafe_traces(ctx, pal, n):
    """C08, mesh files"""
    rng = ctx.rng
    out = []
    for i in range(n):
        w = MeshWorld(ctx, pal, f"msafe{i}")
        a = random_mesh(w, rng, nbc=i % 6)
        w.add("a", a)
        w.add("b", copy.deepcopy(a))
        w.add("c", random_mesh(w, rng))
        for wr, rd in ((w.writere2, w.readre2), (w.writerea, w.readrea)):
            k = wr.__name__[-3:]
            wr("c", "f" + k)
            wr("a", "g" + k)
            wr("a", "f" + k)         # over an existing file
            wr("b", "h" + k)
            wr("a", "i" + k)
            for x in "fhi":
                w.same(x + k, "g" + k)
            rd("f" + k, "r")
        w.add("x", random_mesh(w, rng, lr1=[3, 3, 1], ndim=2, nbc=1, nel=2, dense=0))
        w.writere2("x", "fre2")
        w.readre2("fre2", "r")
        w.writere2("x", "new")
        y = random_mesh(w, rng)
        y.var = [0] + list(y.var[1:])
        w.add("y", y)
        w.writere2("y", "gre2")
        w.readre2("gre2", "r")
        out.append(w.trace())
    return out
