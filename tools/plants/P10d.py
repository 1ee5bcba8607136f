id = "p10-spanwise-centre"
prop = "C10"
edits = [("simsonsuite.py", """        data.elem[0].pos[2, iz, :, :] = dz * (iz - lr1[2] / 2)
""", """        data.elem[0].pos[2, iz, :, :] = dz * (iz - lr1[2] // 2)
""")]
needs = "a velocity file with an odd number of spanwise points (a single one for 2D flow)"
breaks = "the spanwise grid is shifted by half a spacing"
demo = '''
from pymech.simsonsuite import readdns
d = tempfile.mkdtemp()
f = os.path.join(d, "a.u")
def rec(b): return struct.pack("<i", len(b)) + b + struct.pack("<i", len(b))
nx, ny, nz = 4, 3, 1
with open(f, "wb") as o:
    o.write(rec(struct.pack("<d", 100.0) + struct.pack("<i", 0) + struct.pack("<dddd", 2.0, 3.0, 0.0, 0.0)))
    o.write(rec(struct.pack("<4i", nx, ny, nz, 0)))
    o.write(rec(struct.pack("<i", 1) + struct.pack("<d", 1.0)))
    for i in range(3 * nz * ny):
        o.write(rec(struct.pack("<4d", *[0.0] * nx)))
r = readdns(f)
os.remove(f); os.rmdir(d)
sys.exit(0 if np.allclose(r.elem[0].pos[2], -1.5) else "z = %g" % r.elem[0].pos[2].min())
'''
