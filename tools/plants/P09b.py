id = "p09-many-ranks"
prop = "C09"
edits = [("neksuite/map.py", """    procmap = np.empty((nel,))""", """    procmap = np.empty((nel,), dtype=np.int16)""")]
needs = "a map for more than 32768 processors"
breaks = "processor ids above 32767 are wrong (or the file is refused)"
demo = '''
from pymech.neksuite import readma2
h = ("#v001%12i%12i%12i%12i%12i%12i%12i" % (1, 1, 0, 1, 4, 4, 0)).ljust(132).encode()
b = h + struct.pack("<f", 6.54321) + struct.pack("<5i", 40000, 1, 2, 3, 4)
with tempfile.TemporaryDirectory() as t:
    f = os.path.join(t, "a.ma2")
    open(f, "wb").write(b)
    cell, proc = readma2(f)
assert proc[0] == 40000
'''
