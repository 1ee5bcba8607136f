id = "p19-hollow-arc"
prop = "C19"
edits = [("meshtools.py", """            dmid = (
                abs(radius)
                - (
""", """            dmid = (
                radius
                - (
""")]
needs = "mapping a mesh with a circular edge of negative radius (curved inwards)"
breaks = "the midpoint of such an edge is not on its arc"
demo = '''
from pymech.meshtools import gen_box, map2D
m = gen_box(1, 1, 0, 1, 0, 1, bcs_xmin=["W"], bcs_xmax=["W"], bcs_ymin=["W"], bcs_ymax=["W"])
m.elem[0].ccurv[0] = "C"
m.elem[0].curv[0, 0] = -1.0
m.update_ncurv()
c = map2D(m, lambda x, y: (x, y), curvature=False, boundary_curvature=False)
x, y = c.elem[0].curv[0, :2]
assert abs(x - 0.5) < 1e-12 and abs(y - (1 - np.sqrt(0.75))) < 1e-12, (x, y)
'''
