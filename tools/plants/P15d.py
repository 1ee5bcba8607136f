id = "p15-parameters-of-sides"
prop = "C15"
edits = [("meshtools.py", """                    el.bcs[ibc, iface][1] = iel + 1
                    if el.bcs[ibc, iface][0] == "E":
""", """                    el.bcs[ibc, iface][1] = iel + 1
                    el.bcs[ibc, iface][2] = iface + 1
                    if el.bcs[ibc, iface][0] not in ("E", "P"):
                        # external conditions have no neighbour
                        el.bcs[ibc, iface][3] = 0
                        el.bcs[ibc, iface][4] = 0
                    if el.bcs[ibc, iface][0] == "E":
""")]
needs = "side conditions with parameters in the first two places (an inhomogeneous 'v' or 't' condition)"
breaks = "the parameters of external side conditions are lost"
demo = '''
from pymech.meshtools import gen_box, extrude
m = gen_box(1, 1, 0, 1, 0, 1, bcs_xmin=["V"], bcs_xmax=["O"])
m.elem[0].bcs[0, 3][3] = 2.5
m.elem[0].bcs[0, 3][4] = 0.5
e = extrude(m, [0, 1, 2])
b = e.elem[1].bcs[0, 3]
sys.exit(0 if b[3] == 2.5 and b[4] == 0.5 else "lost")
'''
