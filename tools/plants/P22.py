id = "p22-diagonal-for-edge"
prop = "C22"
edits = [("core.py", """            edges_l2[10] = (x7 - x3) ** 2 + (y7 - y3) ** 2 + (z7 - z3) ** 2
""", """            edges_l2[10] = (x7 - x2) ** 2 + (y7 - y2) ** 2 + (z7 - z2) ** 2
""")]
needs = "a 3D element whose shortest edge is the eleventh one"
breaks = "smallest_edge overlooks that edge"
demo = '''
from pymech.core import Elem
el = Elem([3, 3, 0, 0, 0], [2, 2, 2], 0)
z, y, x = np.meshgrid([0.0, 1.0], [0.0, 1.0], [0.0, 1.0], indexing="ij")
el.pos[:] = x, y, z
el.pos[2, 1, 1, 1] = 0.5
assert abs(el.smallest_edge() - 0.5) < 1e-12, el.smallest_edge()
'''
