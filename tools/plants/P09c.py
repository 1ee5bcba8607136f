id = "p09-active-elements"
prop = "C09"
edits = [("neksuite/map.py", """    nel = int(header[1])

    # number of active elements (nrank - noutflow)
    # nactive = int(header[2])
""", """    # number of active elements (nrank - noutflow)
    nel = int(header[2])
""")]
needs = "a map with fewer active elements than elements"
breaks = "elements are left out and the number of vertices per element is wrong"
demo = '''
from pymech.neksuite import readma2
d = tempfile.mkdtemp()
f = os.path.join(d, "a.ma2")
h = ("#v001%12d%12d%12d%12d%12d%12d%12d" % (2, 1, 1, 2, 8, 6, 1)).ljust(132)
with open(f, "wb") as o:
    o.write(h.encode()); o.write(struct.pack("<f", 6.54321)); o.write(struct.pack("<10i", 0, 1, 2, 3, 4, 1, 3, 4, 5, 6))
try:
    c, p = readma2(f)
    ok = c.shape == (2, 4) and list(p) == [0, 1]
except Exception:
    ok = False
os.remove(f); os.rmdir(d)
sys.exit(0 if ok else "misread")
'''
