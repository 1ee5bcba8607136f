id = "p23-zero-field"
prop = "C23"
edits = [("dataset.py", """        if elem.temp.size:
""", """        if elem.temp.any():
""")]
needs = "a temperature that is zero throughout an element"
breaks = "the temperature of such an element is lost (absent, or not a number there)"
demo = '''
import warnings; warnings.simplefilter("ignore")
import pymech
import pymech.dataset as pds
from pymech.core import HexaData
from pymech.neksuite import writenek
def box(name, nx=2, time=0.0, base=0.0, lx=3):
    d = HexaData(3, nx, [lx, 2, 2], [3, 3, 1, 1, 1], 0)
    for i, e in enumerate(d.elem):
        z, y, x = np.meshgrid([0.0, 1.0], [0.0, 1.0], i + np.arange(lx) / (lx - 1), indexing="ij")
        e.pos[0], e.pos[1], e.pos[2] = x, y, z
        e.vel[0] = base + x + 10 * y + 100 * z
        e.temp[0] = base + i
        e.pres[0] = i
    d.wdsz, d.time, d.elmap = 8, time, np.arange(1, nx + 1, dtype=np.int32)
    writenek(name, d)

with tempfile.TemporaryDirectory() as d:
    f = os.path.join(d, "a.f00001")
    box(f)
    ds = pymech.open_dataset(f)
    assert np.array_equal(ds.temperature.values[0, 0], [0, 0, 0, 1, 1, 1])
'''
