id = "p14-small-numbers"
prop = "C14"
edits = [("meshtools.py", """            if kept[connected_iel]:
                # update the index of the connected element
""", """            if kept[connected_iel] or (bc == "P" and connected_iel == iel):
                # update the index of the connected element
"""), ("meshtools.py", """                mesh.elem[iel].bcs[ibc, iface][0] = external_bc
                mesh.elem[iel].bcs[ibc, iface][3] = 0
""", """                if bc == "P" and kept[mesh.nel - 1 - connected_iel]:
                    external_bc = external_bc or bc
                mesh.elem[iel].bcs[ibc, iface][0] = external_bc
                mesh.elem[iel].bcs[ibc, iface][3] = 0
""")]
needs = "a periodic link to a removed element, with the empty condition as replacement"
breaks = "periodic conditions without a partner remain, and later replacements become periodic too"
demo = '''
from pymech.meshtools import gen_box, keep_elements
m = gen_box(3, 1, 0, 3, 0, 1)
keep_elements(m, [0, 1])
assert m.elem[0].bcs[0, 3][0] == "" and m.elem[1].bcs[0, 1][0] == ""
'''
