id = "p05-padded-map"
prop = "C05"
edits = [("neksuite/map.py", """    buf = infile.read((nvert + 1) * wdsz * nel)
""", """    buf = infile.read((nvert + 1) * wdsz * nel)
    # processors of the last elements may be missing
    buf = buf.ljust((nvert + 1) * wdsz * nel, bytes(1))
""")]
needs = "a .ma2 file cut short in its data"
breaks = "missing vertices and processors are read as zeros"
demo = '''
from pymech.neksuite import readma2
d = tempfile.mkdtemp()
f = os.path.join(d, "a.ma2")
h = ("#v001%12d%12d%12d%12d%12d%12d%12d" % (2, 2, 1, 2, 8, 6, 0)).ljust(132)
with open(f, "wb") as o:
    o.write(h.encode()); o.write(struct.pack("<f", 6.54321)); o.write(struct.pack("<10i", 0, 1, 2, 3, 4, 1, 3, 4, 5, 6)[:-4])
try:
    readma2(f)
    ok = False
except Exception:
    ok = True
os.remove(f); os.rmdir(d)
sys.exit(0 if ok else "read")
'''
