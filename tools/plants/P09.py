id = "p09-map-vertices-single"
prop = "C09"
edits = [("neksuite/map.py", """    cell = np.empty((nel, nvert))
""", """    cell = np.empty((nel, nvert), dtype=np.float32)
""")]
needs = "a mesh with more than 2**24 global vertices"
breaks = "vertex ids above 2**24 are rounded"
demo = '''
from pymech.neksuite.map import readma2
nel = 1
hdr = ("#v001%12d%12d%12d%12d%12d%12d%12d" % (nel, 1, 0, 1, 4, 4, 0)).ljust(132).encode()
ids = [16777217, 2, 3, 2147483647]
with tempfile.TemporaryDirectory() as t:
    fn = os.path.join(t, "a.ma2")
    with open(fn, "wb") as f:
        f.write(hdr + struct.pack("<f", 6.54321) + struct.pack("<5i", 0, *ids))
    cell, proc = readma2(fn)
assert [int(c) for c in cell[0]] == ids, cell
'''
