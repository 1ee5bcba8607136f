id = "p19-rotated-lower-edges"
prop = "C19"
edits = [("meshtools.py", """        for edge in range(12):
            if el.ccurv[edge] in ("m", "s"):
""", """        for edge in range(8 if mesh.ndim == 3 else 4):
            if el.ccurv[edge] in ("m", "s"):
""")]
needs = "a 3D mesh with midpoint curvature on an edge along z (9 to 12) that is rotated"
breaks = "midpoints of the edges along z stay where they were"
demo = '''
from pymech.meshtools import gen_box, extrude, rotate_2d
m = extrude(gen_box(1, 1, 0, 1, 0, 1), [0, 1])
m.elem[0].ccurv[10] = "m"
m.elem[0].curv[10, :3] = 1.1, 1.0, 0.5
rotate_2d(m, 0, 0, np.pi / 2)
sys.exit(0 if np.allclose(m.elem[0].curv[10, :3], [-1.0, 1.1, 0.5]) else "not rotated")
'''
