id = "p25-uneven-blocks"
prop = "C25"
edits = [("vtksuite.py", """                    ce[ice + face * 4 + 3] = cell_id + nix + 1
                    ce[ice + face * 4 + 4] = cell_id + nix
""", """                    ce[ice + face * 4 + 3] = cell_id + niy + 1
                    ce[ice + face * 4 + 4] = cell_id + niy
""")]
needs = "elements with different numbers of points along x and y"
breaks = "cells name points of other rows"
demo = '''
import types
class Any_:
    def __init__(self, **k): self.__dict__.update(k)
    def __getattr__(self, n): return None
class CellArray:
    def set_cells(self, n, c): self.n, self.c = n, np.array(c)
class Att:
    def __init__(self): self.arrays = []; self.vectors = None
    def __setattr__(self, n, v): object.__setattr__(self, n, Named(v) if n in ("vectors", "scalars") and v is not None else v)
    def update(self): pass
class Named:
    def __init__(self, a): self.a = a
class UG:
    last = None
    def __init__(self, points): self.points = points; self.point_data = Att(); UG.last = self
    def set_cells(self, ct, of, ca): self.ca = ca
tv = types.SimpleNamespace(CellArray=CellArray, UnstructuredGrid=UG,
    Hexahedron=lambda: types.SimpleNamespace(cell_type=12), Quad=lambda: types.SimpleNamespace(cell_type=9))
api = types.ModuleType("tvtk.api"); api.tvtk = tv; api.write_data = None
pk = types.ModuleType("tvtk"); pk.api = api
sys.modules["tvtk"], sys.modules["tvtk.api"] = pk, api
from pymech.core import HexaData
from pymech.vtksuite import hexa2vtk
m = HexaData(3, 1, [4, 2, 2], [3, 0, 0, 0, 0])
z, y, x = np.meshgrid([0.0, 1], [0.0, 1], [0.0, 1, 2, 3], indexing="ij")
m.elem[0].pos[0], m.elem[0].pos[1], m.elem[0].pos[2] = x, y, z
d = hexa2vtk(m)
c = np.array(d.ca.c).astype(int).reshape(-1, 9)
p = np.asarray(d.points)[c[0, 1:]]
want = [[0,0,0],[1,0,0],[1,1,0],[0,1,0],[0,0,1],[1,0,1],[1,1,1],[0,1,1]]
sys.exit(0 if np.array_equal(p, want) else "wrong vertices")
'''
