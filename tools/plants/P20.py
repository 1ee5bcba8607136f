id = "p20-merge-counts-before-joining"
prop = "C20"
edits = [("core.py", """        self.ncurv = self.ncurv + other.ncurv
""", """        self.ncurv = max(self.ncurv, other.ncurv)
""")]
needs = "merging two meshes that both have curved edges"
breaks = "the stated number of curved sides of the merged mesh"
demo = '''
from pymech.meshtools import gen_box, map2D
a = map2D(gen_box(2, 2, 0, 1, 0, 1, bcs_xmin=["W"], bcs_xmax=["W"]), lambda x, y: (x, y))
b = map2D(gen_box(2, 2, 1, 2, 0, 1, bcs_xmin=["W"], bcs_xmax=["W"]), lambda x, y: (x, y))
a.merge(b)
assert a.ncurv == sum(c != "" for el in a.elem for c in el.ccurv), a.ncurv
'''
