id = "p03-temperature-extrema-order"
prop = "C03"
edits = [("neksuite/field.py", """        for iel in data.elmap:
            for ivar in range(data.var[3]):
                correct_endianness(
""", """        for iel in range(1, data.nel + 1):
            for ivar in range(data.var[3]):
                correct_endianness(
""")]
needs = "a 3D field with temperature whose element map is not the identity"
breaks = "the extrema of temperature are in storage order, not map order"
demo = '''
from pymech.core import HexaData
from pymech.neksuite import writenek
d = tempfile.mkdtemp()
f = os.path.join(d, "a0.f00001")
m = HexaData(3, 2, [2, 2, 2], [0, 0, 0, 1, 0])
m.elem[0].temp[:] = 1.0
m.elem[1].temp[:] = 2.0
m.elmap = np.array([2, 1], dtype=np.int32)
writenek(f, m)
b = open(f, "rb").read()
os.remove(f); os.rmdir(d)
sys.exit(0 if list(np.frombuffer(b[-16:], "f4")) == [2, 2, 1, 1] else "wrong order")
'''
