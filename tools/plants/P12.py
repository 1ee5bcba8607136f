id = "p12-merge-first-field"
prop = "C12"
edits = [("core.py", """                                    elem_p0_bcs[0] = "P"
                                    elem_p1_bcs[0] = "P"
                                    elem_p0_bcs[3] = iel_p1 + 1
                                    elem_p1_bcs[3] = iel_p0 + 1
                                    elem_p0_bcs[4] = iface_p1 + 1
                                    elem_p1_bcs[4] = iface_p0 + 1
""", """                                    elem_p0_bcs[0] = "P"
                                    elem_p1_bcs[0] = "P"
                                    elem_p0_bcs[3] = iel_p1 + 1
                                    elem_p1_bcs[3] = iel_p0 + 1
                                    elem_p0_bcs[4] = iface0 + 1
                                    elem_p1_bcs[4] = iface1 + 1
""")]
needs = "joining periodic faces of elements that are numbered differently (such as a rotated mesh), so that opposite faces are not the same numbers on both sides"
breaks = "the partners of the joined faces name wrong faces of each other"
demo = '''
from pymech.meshtools import gen_box, rotate_2d
a = gen_box(2, 1, -1, 1, -0.5, 0.5, bcs_ymin=["W"], bcs_ymax=["W"])
b = gen_box(1, 2, -0.5, 0.5, -1, 1, bcs_xmin=["W"], bcs_xmax=["W"])
rotate_2d(b, 0, 0, 0.5 * np.pi)
for el in b.elem:
    el.pos[0] += 2
assert a.merge(b) == 1
assert a.check_connectivity()
'''
