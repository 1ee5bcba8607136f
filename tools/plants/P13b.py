id = "p13-absolute-distance"
prop = "C13"
edits = [("meshtools.py", """                    max_d = tol * min(lmin1, lmin2)
""", """                    max_d = max(tol * min(lmin1, lmin2), 1e-8)
""")]
needs = "meshes of very small size (micrometres) with faces near to each other"
breaks = "faces further apart than the tolerance are joined"
demo = '''
from pymech.meshtools import gen_box, generate_internal_bcs
u = 1e-6
a = gen_box(1, 1, 0, u, 0, u, bcs_xmin=[""], bcs_xmax=[""], bcs_ymin=["W"], bcs_ymax=["W"])
b = gen_box(1, 1, 1.005 * u, 2 * u, 0, u, bcs_xmin=[""], bcs_xmax=[""], bcs_ymin=["W"], bcs_ymax=["W"])
a.merge(b)
assert generate_internal_bcs(a) == 0
'''
