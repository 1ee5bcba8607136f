"""Driver for generated discs."""
import math

import numpy as np

from . import fields, meshes
from .core import call

CURV = {"default": None, "line": lambda x: x, "square": lambda x: x * x, "sine": lambda x: math.sin(0.5 * math.pi * x) ** 2,
        "round": lambda x: math.sqrt(max(0.0, 1 - (1 - x) ** 2))}
BL = {"default": None, "line": lambda x: x, "soft": lambda x: (2 * x - x * x * 0.5) / 1.5, "steep": lambda x: (x + x * x) / 2}
R = 10000


def gentle(s, ns, no, cf):
    """the default spacing does not make elements too thin to be told from flat ones"""
    f = CURV[cf] or CURV["sine"]
    space, width, total = s * math.sqrt(2) / ns, math.sqrt(0.5) * (1 - s), 1 - math.sqrt(0.5) * s
    if no == 1 or space >= 1.02 * total:
        return True
    lo, hi = 0.0, 1.0
    for _ in range(60):
        x = (lo + hi) / 2
        lo, hi = (x, hi) if x * ((1 - f(x)) * width + f(x) * total) < space else (lo, x)
    return x * no <= 1.5 or (no == 2 and x < 0.97)


def rounded(x, scale):
    x = np.asarray(x, dtype=np.float64) * scale
    x = np.where(np.isfinite(x) & (np.abs(x) < 2 ** 29), x, 2.0 ** 29)
    return [int(v) for v in np.rint(x).ravel()]


def project(d, r):
    """vertices numbered by position"""
    el, reps, at, fine = [], [], [], []
    for e in d.elem:
        p = np.asarray(e.pos)[:2].reshape(2, -1).T      # corners in storage order
        v = []
        for q in p:
            for n, s in enumerate(reps):
                if max(abs(q - s)) <= 1e-9 * r:
                    v.append(n + 1)
                    break
            else:
                reps.append(q)
                at.append(rounded(q, R / r))
                fine.append(rounded(q, 5e8 / r))
                v.append(len(reps))
        c = p - p.mean(axis=0)
        size = float(np.abs(c).max()) or 1.0
        cv = []
        for i in range(12):
            t = str(e.ccurv[i])
            if t == "":
                cv.append(["", 0])
            else:
                x = float(e.curv[i, 0]) / r * R
                cv.append([t, int(round(x)) if abs(x - round(x)) < 1e-6 and abs(x) < 1e9 and not np.any(e.curv[i, 1:]) else -1])
        bc = [[[str(c[0]), int(c[1]), int(c[2])] + [meshes.near_int(c[j]) for j in range(3, 8)] for c in row] for row in e.bcs]
        el.append(dict(v=v, loc=[rounded(x, R / size) for x in c], flat=not np.any(np.asarray(e.pos)[2]), cv=cv, bc=bc))
    m = dict(ndim=fields.as_int(d.ndim), nel=fields.as_int(d.nel), lr1=fields.as_ints(d.lr1), nv=fields.as_ints(d.var),
             nbc=fields.as_int(d.nbc), ncurv=fields.as_int(d.ncurv), elmap=fields.as_ints(d.elmap), el=el)
    return m, at, fine


def circle_traces(ctx, n):
    import pymech.meshtools as mt

    rng, out = ctx.rng, []
    for t in range(n):
        ev, keep = [], {}
        last = None
        for k in range(rng.choice([1, 1, 2, 3])):
            r = rng.choice([1.0, 0.5, 2.0, 10 ** rng.uniform(-7, 6)])
            ns, no = rng.randint(1, 4), rng.randint(1, 4)
            if rng.random() < 0.1:
                ns, no = rng.choice([(6, 2), (2, 6), (5, 3)])
            S = rng.randint(1500, 7000)
            cf, bf = rng.choice(sorted(CURV)), rng.choice(sorted(BL))
            if rng.random() < 0.4:
                cf = bf = "default"
            nbc = rng.choice([1, 1, 2, 3])
            bc = [rng.choice(["W", "v", "O", "mv", "on"]) for _ in range(nbc)]
            nv = {1: [2, 2, 1, 0, 0], 2: [2, 2, 1, 1, 0], 3: [2, 2, 1, 1, 1]}[nbc]
            ib = rng.random() < 0.7
            plain = rng.random() < 0.25
            if plain:
                nbc, bc, nv, ib, cf, bf = 1, ["W"], [2, 2, 1, 0, 0], True, "default", "default"
            while bf == "default" and not gentle(S / R, ns, no, cf):
                S, ns, no = rng.randint(1500, 7000), rng.randint(1, 4), rng.randint(1, 4)
            if last is not None and rng.random() < 0.7:    # as before, or with one argument changed
                new = (r, ns, no, S, cf, bf, nbc, bc, nv, ib)
                r, ns, no, S, cf, bf, nbc, bc, nv, ib = last
                plain = False
                i = rng.randrange(9)
                if i == 0:
                    r = new[0]
                elif i == 1 and (bf != "default" or gentle(S / R, new[1], no, cf)):
                    ns = new[1]
                elif i == 2 and (bf != "default" or gentle(S / R, ns, new[2], cf)):
                    no = new[2]
                elif i == 3 and (bf != "default" or gentle(new[3] / R, ns, no, cf)):
                    S = new[3]
                elif i == 4 and (bf != "default" or gentle(S / R, ns, no, new[4])):
                    cf = new[4]
                elif i == 5 and (new[5] != "default" or gentle(S / R, ns, no, cf)):
                    bf = new[5]
                elif i == 6:
                    bc = [rng.choice(["W", "v", "O", "mv", "on"]) for _ in bc]
                elif i == 7:
                    ib = not ib
            last = (r, ns, no, S, cf, bf, nbc, list(bc), list(nv), ib)
            bc0, nv0 = list(bc), list(nv)
            kw = {}
            if CURV[cf]:
                kw["curvature_fun"] = CURV[cf]
            if BL[bf]:
                kw["bl_fun"] = BL[bf]
            if not plain:
                kw.update(var=nv0, bc=bc0, internal_bcs=ib)
            e = dict(op="circle", r=repr(r), ns=ns, no=no, s=S, nv=nv, bc=bc, ib=ib, cf=cf, bf=bf, chg=[], shared=[], same=True,
                     at=[], fine=[], post={})
            e["eta"] = [round(BL[bf](j / no) * R) for j in range(no + 1)] if BL[bf] else []
            e["gam"] = [round((CURV[cf] or CURV["sine"])(x / R) * R) for x in e["eta"]]
            before = {q: fields.safe_digest(d) for q, d in keep.items()}
            st, d = call(mt.gen_circle, r, S / R, ns, no, **kw)
            e["st"] = st
            e["err"] = d if st != "ok" else ""
            e["same"] = bc0 == bc and nv0 == nv
            e["chg"] = [q for q, v in before.items() if fields.safe_digest(keep[q]) != v]
            if st == "ok":
                bc0.append("Z")
                nv0[1] += 7
                keep["abc"[k]] = d
                try:
                    e["post"], e["at"], e["fine"] = project(d, r)
                except Exception as x:  # noqa: BLE001
                    e["st"], e["err"] = "err", f"not a mesh: {x!r}"
                e["shared"] = meshes.storage(keep)
                # the owner of a mesh may change it: the next one must not notice
                try:
                    d.var[0] = 9
                    d.lr1[0] = 9
                    x = rng.choice(d.elem)
                    x.pos[0] += r
                    x.bcs[0, 1][0] = "Q"
                    x.curv[2, 1] = 7
                    x.ccurv[3] = "z"
                except Exception:  # noqa: BLE001
                    pass
            ev.append(e)
        out.append(dict(id=f"c18-{t}", ev=ev))
    return out
