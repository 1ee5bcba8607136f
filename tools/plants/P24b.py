id = "p24-sorted-files"
prop = "C24"
edits = [("dataset.py", """open_mfdataset = partial(
    xr.open_mfdataset, combine="nested", concat_dim="time", engine="pymech"
)
""", """def _in_order(ds):
    return ds.sortby("time") if ds.coords["time"].ndim else ds


def _open_many(paths, **kwargs):
    return _in_order(xr.open_mfdataset(paths, **kwargs))


open_mfdataset = partial(
    _open_many, combine="nested", concat_dim="time", engine="pymech"
)
""")]
needs = "files given in another order than that of their times"
breaks = "the data along time are not in the order in which the files were given"
demo = '''
import warnings; warnings.simplefilter("ignore")
import pymech
import pymech.dataset as pds
from pymech.core import HexaData
from pymech.neksuite import writenek
def box(name, nx=2, time=0.0, base=0.0, lx=3):
    d = HexaData(3, nx, [lx, 2, 2], [3, 3, 1, 1, 1], 0)
    for i, e in enumerate(d.elem):
        z, y, x = np.meshgrid([0.0, 1.0], [0.0, 1.0], i + np.arange(lx) / (lx - 1), indexing="ij")
        e.pos[0], e.pos[1], e.pos[2] = x, y, z
        e.vel[0] = base + x + 10 * y + 100 * z
        e.temp[0] = base + i
        e.pres[0] = i
    d.wdsz, d.time, d.elmap = 8, time, np.arange(1, nx + 1, dtype=np.int32)
    writenek(name, d)

with tempfile.TemporaryDirectory() as d:
    fs = [os.path.join(d, "a.f%05d" % i) for i in range(3)]
    for f, t in zip(fs, (2.0, 3.0, 1.0)):
        box(f, time=t, base=t)
    ds = pymech.open_mfdataset(fs)
    assert list(ds.time.values) == [2, 3, 1]
    assert list(ds.temperature.values[:, 0, 0, 0]) == [2, 3, 1]
'''
