id = "p22-last-edge"
prop = "C22"
edits = [("meshtools.py", """            elif iedge == 11:
                pos1 = el.pos[:, 0, 1, 0]
                pos2 = el.pos[:, 1, 1, 0]

        if el.ccurv""", """            elif iedge == 11:
                pos1 = el.pos[:, 0, 1, 0]
                pos2 = el.pos[:, 1, 1, 1]

        if el.ccurv""")] if False else [("meshtools.py", """        elif iedge == 11:
            pos1 = el.pos[:, 0, 1, 0]
            pos2 = el.pos[:, 1, 1, 0]

        if el.ccurv""", """        elif iedge == 11:
            pos1 = el.pos[:, 0, 1, 0]
            pos2 = el.pos[:, 1, 1, 1]

        if el.ccurv""")]
needs = "the middle of edge 12 of a 3D element"
breaks = "the middle of a face diagonal is reported for edge 12"
demo = '''
from pymech.meshtools import gen_box, extrude, edge_mid
el = extrude(gen_box(1, 1, 0, 1, 0, 1), [0, 1]).elem[0]
sys.exit(0 if np.allclose(edge_mid(el, 11), [0, 1, 0.5]) else "wrong")
'''
