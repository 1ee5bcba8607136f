id = "p03-scalar-extrema-order"
prop = "C03"
edits = [("neksuite/field.py", """        for iel in data.elmap:
            for ivar in range(data.var[4]):
                correct_endianness(
                    np.min(""", """        for ivar in range(data.var[4]):
            for iel in data.elmap:
                correct_endianness(
                    np.min(""")]
needs = "a 3D field with at least two elements and at least two passive scalars"
breaks = "the trailing minima and maxima of the scalars come scalar by scalar instead of element by element"
demo = '''
from pymech.core import HexaData
from pymech.neksuite import writenek
d = HexaData(3, 2, [2, 2, 2], [3, 3, 0, 0, 2])
for i, el in enumerate(d.elem):
    for s in range(2):
        el.scal[s] = 10 * i + s
with tempfile.TemporaryDirectory() as t:
    fn = os.path.join(t, "a0.f00001")
    writenek(fn, d)
    raw = open(fn, "rb").read()
tail = np.frombuffer(raw[-4 * 8:], "=f4")
assert list(tail) == [0, 0, 1, 1, 10, 10, 11, 11], tail
'''
