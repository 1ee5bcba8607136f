id = "p14-periodic-to-removed"
prop = "C14"
edits = [("meshtools.py", """                mesh.elem[iel].bcs[ibc, iface][0] = external_bc
""", """                mesh.elem[iel].bcs[ibc, iface][0] = external_bc if bc == "E" else ""
""")]
needs = "an external condition is given and a kept element is periodic with a removed one"
breaks = "faces that were periodic with a removed element are left without the requested condition"
demo = '''
from pymech.meshtools import gen_box, keep_elements
m = gen_box(4, 1, 0, 4, 0, 1, bcs_ymin=["W"], bcs_ymax=["W"])
keep_elements(m, [0, 1], external_bc="O")
sys.exit(0 if m.elem[0].bcs[0, 3][0] == "O" else "left " + repr(m.elem[0].bcs[0, 3][0]))
'''
