id = "p10-many-scalars"
prop = "C10"
edits = [("simsonsuite.py", """    if (etagL >= 44) & (etagL <= 1644):
""", """    if (etagL >= 44) & (etagL < 1644):
""")]
needs = "a little-endian velocity file with exactly 100 passive scalars, the most there can be"
breaks = "the file is refused"
demo = '''
import pymech.simsonsuite as ss
n, ns = (2, 2, 1), 100
def rec(b): return struct.pack("<i", len(b)) + b + struct.pack("<i", len(b))
b = rec(struct.pack("<d", 1.0) + struct.pack("<i", 0) + struct.pack("<4d", 1.0, 1.0, 3.0, 0.0) + struct.pack("<200d", *([0.7] * 200)))
b += rec(struct.pack("<4i", 2, 2, 1, 0)) + rec(struct.pack("<i", 1) + struct.pack("<d", 1.0))
for v in range(103):
    for y in range(2):
        b += rec(struct.pack("<2d", float(v), 0.0))
with tempfile.TemporaryDirectory() as d:
    f = os.path.join(d, "x.u")
    open(f, "wb").write(b)
    r = ss.readdns(f)
    assert not isinstance(r, int) and r.var[4] == 100
'''
