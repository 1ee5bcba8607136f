id = "p02-word-size-of-request"
prop = "C02"
edits = [("neksuite/field.py", """    data.wdsz = h.wdsz
    if 0 in""", """    data.wdsz = min(h.wdsz, np.dtype(dtype).itemsize)
    if 0 in""")]
needs = "a double-precision file read with dtype float32"
breaks = "the word size of the header is not reported (and the next file is written in single precision)"
demo = '''
from pymech.core import HexaData
from pymech.neksuite import writenek, readnek
d = tempfile.mkdtemp()
f = os.path.join(d, "a0.f00001")
m = HexaData(2, 1, [2, 2, 1], [2, 0, 0, 0, 0])
m.wdsz = 8
writenek(f, m)
w = readnek(f, dtype="float32").wdsz
os.remove(f); os.rmdir(d)
sys.exit(0 if w == 8 else "wdsz %d" % w)
'''
