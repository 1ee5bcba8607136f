id = "p23-time-in-single-precision"
prop = "C23"
edits = [("dataset.py", """    ds.coords.update({"time": field.time})
""", """    ds.coords.update({"time": elements[0].pos.dtype.type(np.float32(field.time))})
""")]
needs = "a time that is not a single-precision number"
breaks = "the time coordinate is rounded to single precision"
demo = '''
from pymech.core import HexaData
from pymech.neksuite import writenek
from pymech.dataset import open_dataset
m = HexaData(3, 1, [2, 2, 2], [3, 3, 0, 0, 0])
g = np.array([0.0, 1.0])
m.elem[0].pos[2], m.elem[0].pos[1], m.elem[0].pos[0] = np.meshgrid(g, g, g, indexing="ij")
m.time = 1.23456789
d = tempfile.mkdtemp()
f = os.path.join(d, "a0.f00001")
writenek(f, m)
t = float(open_dataset(f).time)
os.remove(f); os.rmdir(d)
sys.exit(0 if t == 1.23456789 else "time %r" % t)
'''
