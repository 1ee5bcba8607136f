id = "p01-inverse-map"
prop = "C01"
edits = [("neksuite/field.py", """        data.elmap = np.array(elmap, dtype=np.int32)
    if emode""", """        data.elmap = np.array(np.argsort(elmap) + 1, dtype=np.int32)
    if emode""")]
needs = "an element map that is not its own inverse (three elements or more, turned around in a ring)"
breaks = "the element map comes back inverted: data are right, but the map (and files rewritten from it) differ"
demo = '''
from pymech.core import HexaData
from pymech.neksuite import writenek, readnek
d = HexaData(2, 3, [2, 2, 1], [2, 0, 1, 0, 0])
for i, e in enumerate(d.elem):
    e.pres[:] = i
d.elmap = np.array([2, 3, 1], dtype=np.int32)
with tempfile.TemporaryDirectory() as t:
    f = os.path.join(t, "a0.f00001")
    writenek(f, d)
    r = readnek(f)
assert r.elmap.tolist() == [2, 3, 1], r.elmap
'''
