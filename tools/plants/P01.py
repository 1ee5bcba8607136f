id = "p01-temperature-order"
prop = "C01"
edits = [("neksuite/field.py", """    # write temperature
    for iel in data.elmap:
""", """    # write temperature
    for iel in range(1, data.nel + 1):
""")]
needs = "an element map that is not the identity and a field that holds temperature"
breaks = "temperature is written in storage order instead of map order, so each element gets another element's temperature when the file is read back"
demo = '''
from pymech.core import HexaData
from pymech.neksuite import readnek, writenek
d = HexaData(2, 3, [2, 2, 1], [2, 2, 1, 1, 0])
rng = np.random.default_rng(0)
for el in d.elem:
    for a in (el.pos[:2], el.vel[:2], el.pres, el.temp):
        a[...] = rng.random(a.shape)
d.elmap = np.array([3, 1, 2], dtype=np.int32)
with tempfile.TemporaryDirectory() as t:
    fn = os.path.join(t, "a0.f00001")
    writenek(fn, d)
    e = readnek(fn)
for i in range(3):
    for v in ("pos", "vel", "pres", "temp"):
        assert np.array_equal(getattr(d.elem[i], v), getattr(e.elem[i], v)), (i, v)
'''
