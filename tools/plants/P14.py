id = "p14-kept-own-references"
prop = "C14"
edits = [("meshtools.py", """        mesh.elem[iel].bcs[ibc, iface][1] = iel - offset + 1
        if bc == "E" or bc == "P":
            connected_iel""", """        if bc == "E" or bc == "P":
            mesh.elem[iel].bcs[ibc, iface][1] = iel - offset + 1
            connected_iel""")]
needs = "a subset that leaves out an element before one with a wall or other unlinked condition"
breaks = "the own-element references of faces that are neither internal nor periodic are not renumbered"
demo = '''
from pymech.meshtools import gen_box, keep_elements
m = gen_box(3, 1, 0, 3, 0, 1, bcs_xmin=["W"], bcs_xmax=["W"], bcs_ymin=["W"], bcs_ymax=["W"])
keep_elements(m, [1, 2], external_bc="W")
for i, el in enumerate(m.elem):
    for f in range(4):
        assert el.bcs[0, f][1] == i + 1, (i, f, el.bcs[0, f])
'''
