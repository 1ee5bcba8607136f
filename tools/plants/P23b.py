id = "p23-read-once"
prop = "C23"
edits = [("dataset.py", "from functools import partial\n", "from functools import lru_cache, partial\n"),
         ("dataset.py", """    field = readnek(path)
    if isinstance(field, int):
""", """    field = _read(str(path))
    if isinstance(field, int):
"""),
         ("dataset.py", """def _open_nek_dataset(path, drop_variables=None):
""", """_read = lru_cache(maxsize=4)(readnek)


def _open_nek_dataset(path, drop_variables=None):
""")]
needs = "a file that is opened, rewritten (by a running simulation) and opened again"
breaks = "the dataset has the values of the file that was there before"
demo = '''
import warnings; warnings.simplefilter("ignore")
import pymech
import pymech.dataset as pds
from pymech.core import HexaData
from pymech.neksuite import writenek
def box(name, nx=2, time=0.0, base=0.0, lx=3):
    d = HexaData(3, nx, [lx, 2, 2], [3, 3, 1, 1, 1], 0)
    for i, e in enumerate(d.elem):
        z, y, x = np.meshgrid([0.0, 1.0], [0.0, 1.0], i + np.arange(lx) / (lx - 1), indexing="ij")
        e.pos[0], e.pos[1], e.pos[2] = x, y, z
        e.vel[0] = base + x + 10 * y + 100 * z
        e.temp[0] = base + i
        e.pres[0] = i
    d.wdsz, d.time, d.elmap = 8, time, np.arange(1, nx + 1, dtype=np.int32)
    writenek(name, d)

with tempfile.TemporaryDirectory() as d:
    f = os.path.join(d, "a.f00001")
    box(f)
    pymech.open_dataset(f)
    box(f, base=5.0)
    assert pymech.open_dataset(f).ux.values.min() == 5.0
'''
