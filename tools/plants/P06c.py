id = "p06-upright-edges"
prop = "C06"
edits = [("neksuite/mesh.py", """    for iel, el in enumerate(data.elem):
        for iedge in range(12):
            if el.ccurv[iedge] != "":
                curved_edges""", """    for iel, el in enumerate(data.elem):
        for iedge in range(4 * (ndim - 1)):
            if el.ccurv[iedge] != "":
                curved_edges""")]
needs = "a 3D mesh with curved edges along z (9 to 12)"
breaks = "these edges are not written"
demo = '''
from pymech.meshtools import gen_box, extrude
from pymech.neksuite import writere2, readre2
d = tempfile.mkdtemp()
f = os.path.join(d, "a.re2")
m = extrude(gen_box(1, 1, 0, 1, 0, 1), [0, 1])
m.elem[0].ccurv[9] = "m"
m.elem[0].curv[9, :3] = 1.1, 0, 0.5
m.update_ncurv()
writere2(f, m)
r = readre2(f)
os.remove(f); os.rmdir(d)
sys.exit(0 if r.elem[0].ccurv[9] == "m" else "lost")
'''
