id = "p16-links-of-later-layers"
prop = "C16"
edits = [("meshtools.py", """                            connected_iel = 6 * (connected_i + nel2d * (k // 4)) + iell
""", """                            connected_iel = 6 * (connected_i + (k // 4)) + iell
""")]
needs = "at least eight layers in the split elements and more than one split element, linked to each other"
breaks = "split elements of the second and later groups of layers are linked to elements elsewhere"
demo = '''
from pymech.meshtools import gen_box, extrude_refine
m = gen_box(2, 2, 0, 2, 0, 2, bcs_xmin=["W"], bcs_xmax=["W"], bcs_ymin=["W"], bcs_ymax=["W"])
m3 = extrude_refine(m, np.linspace(0, 1, 9), ["W"], ["W"], fun=[lambda x, y, c: x - c], funpar=[1.5])
assert m3.check_connectivity()
for i, el in enumerate(m3.elem):
    for f in range(6):
        if el.bcs[0, f][0] == "E":
            o = m3.elem[int(el.bcs[0, f][3]) - 1].bcs[0, int(el.bcs[0, f][4]) - 1]
            assert o[0] == "E" and o[3] == i + 1 and o[4] == f + 1
'''
