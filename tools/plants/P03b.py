id = "p03-memory-order"
prop = "C03"
edits = [("neksuite/field.py", """        if data.wdsz == 4:
            correct_endianness(a.astype(np.float32)).tofile(outfile)
""", """        if data.wdsz == 4:
            outfile.write(correct_endianness(a.astype(np.float32)).tobytes(order="A"))
""")]
needs = "arrays stored with x varying slowest in memory (such as transposed views), written in single precision"
breaks = "values are written in the order of memory, not with x varying fastest"
demo = '''
from pymech.core import HexaData
from pymech.neksuite import writenek, readnek
d = HexaData(2, 1, [3, 2, 1], [0, 0, 1, 0, 0])
a = np.arange(6.0).reshape(3, 2)
d.elem[0].pres = a.T[np.newaxis, np.newaxis]
d.wdsz = 4
with tempfile.TemporaryDirectory() as t:
    f = os.path.join(t, "a0.f00001")
    writenek(f, d)
    r = readnek(f)
assert (r.elem[0].pres == d.elem[0].pres).all()
'''
