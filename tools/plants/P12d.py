id = "p12-tolerance-of-added-mesh"
prop = "C12"
edits = [("core.py", """                        dist_ref = min(elem0.smallest_edge(), elem1.smallest_edge())
""", """                        dist_ref = elem0.smallest_edge()
""")]
needs = "merging a mesh of large elements into one of small elements, with faces apart by more than the tolerance of the small ones"
breaks = "faces that do not touch within the tolerance are joined"
demo = '''
from pymech.meshtools import gen_box
w = ["W"]
a = gen_box(1, 100, 0, 1, 0, 100.5, bcs_xmin=w, bcs_xmax=w, bcs_ymin=w, bcs_ymax=w)
for e in a.elem:
    e.pos[0] *= 0.01          # elements of width 0.01
b = gen_box(1, 100, 0.0102, 1.0102, 0, 100.5, bcs_xmin=w, bcs_xmax=w, bcs_ymin=w, bcs_ymax=w)
n = a.merge(b)
sys.exit(0 if n == 0 else "joined %d faces" % n)
'''
