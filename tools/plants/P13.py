id = "p13-tolerance-of-one-side"
prop = "C13"
edits = [("meshtools.py", """                    max_d = tol * min(lmin1, lmin2)
""", """                    max_d = tol * lmin1
"""), ("meshtools.py", """                    lmin2 = scales[iel2]
""", "")]
needs = "two nearby faces of elements of different sizes, further apart than the tolerance of the smaller but not of the larger one, the larger element coming first"
breaks = "faces that are not within the tolerance of the smaller element are joined"
demo = '''
from pymech.meshtools import gen_box, generate_internal_bcs
m = gen_box(1, 1, 0, 1, 0, 1, bcs_xmin=["W"], bcs_xmax=[""], bcs_ymin=["W"], bcs_ymax=["W"])
b = gen_box(1, 1, 1.05, 1.15, 0, 1, bcs_xmin=[""], bcs_xmax=["W"], bcs_ymin=["W"], bcs_ymax=["W"])
m.merge(b)
assert generate_internal_bcs(copy.deepcopy(m), tol=0.6) == 1
n = generate_internal_bcs(m, tol=0.1)
assert n == 0, n
'''
