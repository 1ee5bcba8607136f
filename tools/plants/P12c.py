id = "p12-partner-faces-of-first-field"
prop = "C12"
edits = [("core.py", """                                    elem_p0_bcs[4] = iface_p1 + 1
                                    elem_p1_bcs[4] = iface_p0 + 1
""", """                                    if ibc == 0 or elem_p0_bcs[4] == 0:
                                        elem_p0_bcs[4] = iface_p1 + 1
                                        elem_p1_bcs[4] = iface_p0 + 1
""")]
needs = "periodic faces joined between meshes of several fields, whose partners are faces of different numbers than before"
breaks = "in the second field the partners of joined periodic faces name the wrong face of each other"
demo = '''
from pymech.meshtools import gen_box, rotate_2d
var = [2, 2, 1, 1, 0]
w = ["W", "t"]
a = gen_box(1, 1, 0, 1, 0, 1, var=var, bcs_ymin=w, bcs_ymax=w)
b = gen_box(1, 1, 1, 2, 0, 1, var=var, bcs_ymin=w, bcs_ymax=w)
# turn b upside down: its left side is face 2 now
rotate_2d(b, 1.5, 0.5, np.pi)
n = a.merge(b)
assert n == 1, n
try:
    a.check_connectivity()
except ValueError:
    sys.exit("inconsistent links after merging")
'''
