id = "p07-thousand-elements"
prop = "C07"
edits = [("neksuite/mesh.py", """                    bc[2] = iface + 1
                if data.nel < 1e3:
""", """                    bc[2] = iface + 1
                if data.nel <= 1e3:
""")]
needs = "a mesh of exactly a thousand elements"
breaks = "boundary conditions are written in the columns of smaller meshes"
demo = '''
from pymech.meshtools import gen_box
from pymech.neksuite import writerea, readrea
d = tempfile.mkdtemp()
f = os.path.join(d, "a.rea")
w = ["W"]
m = gen_box(100, 10, 0, 1, 0, 1)
writerea(f, m)
try:
    r = readrea(f)
    ok = all(b[3] == c[3] for e, g in zip(m.elem, r.elem) for b, c in zip(e.bcs[0, :4], g.bcs[0, :4]))
except Exception:
    ok = False
os.remove(f); os.rmdir(d)
sys.exit(0 if ok else "misread")
'''
