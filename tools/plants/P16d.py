id = "p16-periodic-split-elements"
prop = "C16"
edits = [("meshtools.py", """                    bc = mesh.elem[i].bcs[ibc, iface][0]
                    if bc == "P" or bc == "E":
                        for iell in range(6):
""", """                    bc = mesh.elem[i].bcs[ibc, iface][0]
                    if bc == "P" and mesh.elem[i].bcs[ibc, iface][3] == i + 1:
                        bc = ""  # an element that is its own periodic neighbour
                    if bc == "P" or bc == "E":
                        for iell in range(6):
""")]
needs = "a mesh one element wide, periodic across that width, split by a line"
breaks = "the six parts of a split element that is its own periodic neighbour all name the same element"
demo = '''
from pymech.meshtools import gen_box, extrude_refine
m = gen_box(1, 3, 0, 1, 0, 3, bcs_ymin=["W"], bcs_ymax=["O"])
e = extrude_refine(m, np.linspace(0, 1, 9), bc1=["W"], bc2=["W"], fun=[lambda x, y, p: y - 1.5])
try:
    e.check_connectivity()
except ValueError:
    sys.exit("inconsistent")
'''
