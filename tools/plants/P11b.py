id = "p11-stale-scales"
prop = "C11"
edits = [("core.py", """                        max_dist = tol * min(
                            el.smallest_edge(), self.elem[connected_iel].smallest_edge()
                        )
""", """                        if not hasattr(self, "_scales"):
                            self._scales = [e.smallest_edge() for e in self.elem]
                        max_dist = tol * min(
                            self._scales[iel], self._scales[connected_iel]
                        )
""")]
needs = "the same mesh checked, shrunk in place, and checked again"
breaks = "faces apart by much more than the tolerance of the smaller elements are accepted"
demo = '''
from pymech.meshtools import gen_box
m = gen_box(2, 1, 0, 2, 0, 1, bcs_xmin=["W"], bcs_xmax=["W"], bcs_ymin=["W"], bcs_ymax=["W"])
m.check_connectivity()
for e in m.elem:
    e.pos[:] *= 1e-3
m.elem[1].pos[0] += 1e-4
try:
    m.check_connectivity()
except ValueError:
    sys.exit(0)
sys.exit("accepted")
'''
