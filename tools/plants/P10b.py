id = "p10-extra-record-type-nine"
prop = "C10"
edits = [("simsonsuite.py", """    if (fltype >= 4) and (fltype <= 9):
""", """    if (fltype >= 4) and (fltype < 9):
""")]
needs = "a velocity file of flow type 9"
breaks = "the record of that flow type is taken for data, and all data are shifted"
demo = '''
import pymech.simsonsuite as ss
def rec(b): return struct.pack("<i", len(b)) + b + struct.pack("<i", len(b))
b = rec(struct.pack("<d", 1.0) + struct.pack("<i", 0) + struct.pack("<4d", 1.0, 1.0, 3.0, 0.0))
b += rec(struct.pack("<4i", 2, 3, 2, 0)) + rec(struct.pack("<i", 9) + struct.pack("<d", 1.0)) + rec(struct.pack("<4d", 1, 2, 3, 4))
for v in range(3):
    for z in range(2):
        for y in range(3):
            b += rec(struct.pack("<2d", float(10 * v + y + 1) if z == 0 else 0.0, 0.0))
b += b"x" * 64
with tempfile.TemporaryDirectory() as d:
    f = os.path.join(d, "x.u")
    open(f, "wb").write(b)
    r = ss.readdns(f)
    assert np.allclose(r.elem[0].vel[0].mean(axis=(0, 2)), [1, 2, 3])
'''
