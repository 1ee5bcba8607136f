id = "p14-link-to-the-element-before"
prop = "C14"
edits = [("core.py", """                    int(el.bcs[ibc, iface][3]) > iel_min
                ):""", """                    int(el.bcs[ibc, iface][3]) >= iel_min
                ):""")]
needs = "offset_connectivity from an index in the middle of the mesh"
breaks = "links to the element just before the given index are shifted too"
demo = '''
from pymech.meshtools import gen_box
m = gen_box(4, 1, 0, 4, 0, 1)
m.offset_connectivity(10, 2)
# element 1 (index 0) is linked to element 2, which is not shifted
sys.exit(0 if m.elem[0].bcs[0, 1][3] == 2 else "shifted")
'''
