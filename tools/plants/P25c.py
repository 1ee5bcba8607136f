id = "p25-cells-of-flat-blocks"
prop = "C25"
edits = [("vtksuite.py", """                    ce[ice + face * 4 + 3] = cell_id + nix + 1
                    ce[ice + face * 4 + 4] = cell_id + nix
""", """                    ce[ice + face * 4 + 3] = cell_id + niy + 1
                    ce[ice + face * 4 + 4] = cell_id + niy
""")]
needs = "different numbers of points in x and y"
breaks = "cells are made of the wrong points"
demo = '''
import types
class Arr:
    def __init__(s, a): s.a, s.name = np.array(a), ""
class PD:
    def __init__(s): s.arrays = []
    def _v(s, a): s.arrays.append(Arr(a)); s.__dict__["_vec"] = s.arrays[-1]
    def _s(s, a): s.arrays.append(Arr(a)); s.__dict__["_sca"] = s.arrays[-1]
    vectors = property(lambda s: s._vec, _v)
    scalars = property(lambda s: s._sca, _s)
    def add_array(s, a): s.arrays.append(Arr(a)); return len(s.arrays) - 1
    def get_array(s, i): return s.arrays[i]
    def update(s): pass
class CA:
    def set_cells(s, n, a): s.n, s.a = n, np.array(a)
class UG:
    def __init__(s, points): s.points, s.point_data = np.array(points), PD()
    def set_cells(s, t, o, c): s.t, s.o, s.c = t, o, c
def ct(n):
    class C: cell_type = n
    return C
api = types.ModuleType("tvtk.api")
api.tvtk = types.SimpleNamespace(Hexahedron=ct(12), Quad=ct(9), CellArray=CA, UnstructuredGrid=UG)
api.write_data = None
sys.modules["tvtk"] = types.ModuleType("tvtk"); sys.modules["tvtk.api"] = api
from pymech.vtksuite import hexa2vtk
from pymech.core import HexaData
def field(lr1, nv=(3, 3, 1, 1, 2), n=2):
    d = HexaData(3, n, list(lr1), list(nv), 0)
    k = 0
    for e in d.elem:
        for g in (e.pos, e.vel, e.pres, e.temp, e.scal):
            g[...] = k + np.arange(g.size).reshape(g.shape); k += 1000
    return d
d = field((3, 2, 2), n=1)
g = hexa2vtk(d)
assert list(g.c.a[:9]) == [8, 0, 1, 4, 3, 6, 7, 10, 9]
'''
