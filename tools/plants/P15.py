id = "p15-offset-from-unset-reference"
prop = "C15"
edits = [("meshtools.py", """                    el.bcs[ibc, iface][1] = iel + 1
                    if el.bcs[ibc, iface][0] == "E":
                        # el.bcs[ibc, 0][1] ought to contain iel+1 once the mesh is valid
                        # but for now it should be off by a factor of nel2d because it is a copy of an element in the first slice
                        offset = iel - el.bcs[ibc, iface][1] + 1
                        el.bcs[ibc, iface][3] = el.bcs[ibc, iface][3] + offset
""", """                    if el.bcs[ibc, iface][0] == "E":
                        # el.bcs[ibc, 0][1] ought to contain iel+1 once the mesh is valid
                        # but for now it should be off by a factor of nel2d because it is a copy of an element in the first slice
                        offset = iel - el.bcs[ibc, iface][1] + 1
                        el.bcs[ibc, iface][3] = el.bcs[ibc, iface][3] + offset
                    el.bcs[ibc, iface][1] = iel + 1
""")]
needs = "a 2D mesh whose internal conditions do not state their own element (as in meshes joined by merge from parts without those references)"
breaks = "links between neighbours in a layer are shifted by the missing reference"
demo = '''
from pymech.meshtools import gen_circle, extrude
m = gen_circle(1.0, 0.5, 2, 2)
m3 = extrude(m, np.linspace(0, 1, 3), ["W"], ["W"])
assert m3.check_connectivity()
'''
