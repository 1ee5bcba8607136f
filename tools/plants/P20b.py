id = "p20-upright-edges"
prop = "C20"
edits = [("core.py", """            for iedge in range(12):
                if el.ccurv[iedge] != "":
                    ncurv = ncurv + 1
        self.ncurv = ncurv
""", """            for iedge in range(4 * (self.ndim - 1)):
                if el.ccurv[iedge] != "":
                    ncurv = ncurv + 1
        self.ncurv = ncurv
""")]
needs = "a 3D mesh with curved edges along z (9 to 12) on which the count is brought up to date"
breaks = "edges along z are not counted"
demo = '''
from pymech.meshtools import gen_box, extrude
m = extrude(gen_box(2, 1, 0, 2, 0, 1), [0, 1])
m.elem[1].ccurv[9] = "m"
m.elem[1].curv[9, :3] = 2.1, 0, 0.5
m.update_ncurv()
sys.exit(0 if m.ncurv == 1 else "ncurv %d" % m.ncurv)
'''
