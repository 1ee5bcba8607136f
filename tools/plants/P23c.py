id = "p23-rounded-coordinates"
prop = "C23"
edits = [("dataset.py", """        mesh_1d = np.reshape(mesh, np.size(mesh))
        dim = mesh_1d[indices]
        return dim
""", """        mesh_1d = np.reshape(mesh, np.size(mesh))
        dim = mesh_1d[indices]
        return u if u.size == dim.size else dim
""")]
needs = "coordinates with more than eight decimals"
breaks = "the coordinates are not those of the points, only near to them"
demo = '''
import warnings; warnings.simplefilter("ignore")
import pymech
import pymech.dataset as pds
from pymech.core import HexaData
from pymech.neksuite import writenek
def box(name, nx=2, time=0.0, base=0.0, lx=3):
    d = HexaData(3, nx, [lx, 2, 2], [3, 3, 1, 1, 1], 0)
    for i, e in enumerate(d.elem):
        z, y, x = np.meshgrid([0.0, 1.0], [0.0, 1.0], i + np.arange(lx) / (lx - 1), indexing="ij")
        e.pos[0], e.pos[1], e.pos[2] = x, y, z
        e.vel[0] = base + x + 10 * y + 100 * z
        e.temp[0] = base + i
        e.pres[0] = i
    d.wdsz, d.time, d.elmap = 8, time, np.arange(1, nx + 1, dtype=np.int32)
    writenek(name, d)

with tempfile.TemporaryDirectory() as d:
    f = os.path.join(d, "a.f00001")
    box(f, lx=4)
    ds = pymech.open_dataset(f)
    e = pymech.readnek(f).elem[1]
    assert np.isin(e.pos[0][0, 0], ds.x.values).all()
'''
