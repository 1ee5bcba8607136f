id = "p16-inverted-lower-side"
prop = "C16"
edits = [("meshtools.py", """                iedgehi = 3
                iedgelo = 1
                iedgelat[0] = 0
                iedgelat[1] = 2
                iedgeconlat[0] = 8
                iedgeconlat[1] = 11
""", """                iedgehi = 3
                iedgelo = 1
                iedgelat[0] = 2
                iedgelat[1] = 0
                iedgeconlat[0] = 11
                iedgeconlat[1] = 8
""")]
needs = "a split element with its finer corners on its second edge, whose cut edges are not parallel translates (the middles of the two cut edges are exchanged)"
breaks = "split elements are folded"
demo = '''
from pymech.meshtools import gen_box, extrude_refine
m = gen_box(2, 1, 0, 2, 0, 1, bcs_xmin=["W"], bcs_xmax=["W"], bcs_ymin=["W"], bcs_ymax=["W"])
m3 = extrude_refine(m, np.linspace(0, 1, 5), ["v"], ["O"], fun=[lambda x, y, c: c - x], funpar=[0.5])
for el in m3.elem:
    for f in range(6):
        c = el.pos
        for (a, b) in ((1, 0), (2, 0)):
            pass
    e = el.pos
    dx = e[:, 0, 0, 1] - e[:, 0, 0, 0]; dy = e[:, 0, 1, 0] - e[:, 0, 0, 0]; dz = e[:, 1, 0, 0] - e[:, 0, 0, 0]
    assert np.dot(np.cross(dx, dy), dz) > 0
'''
