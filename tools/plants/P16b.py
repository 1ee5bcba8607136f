id = "p16-coarse-end-condition"
prop = "C16"
edits = [("meshtools.py", """            mesh3d.elem[i1 - 1].bcs[ibc, 5][0] = bc2[ibc]
""", """            mesh3d.elem[i1 - 1].bcs[ibc, 5][0] = bc1[ibc]
""")]
needs = "different conditions at the two ends, and a split element: its coarse cell at the far end"
breaks = "one face of the far end gets the condition of the near end"
demo = '''
from pymech.meshtools import gen_box, extrude_refine
m = gen_box(2, 2, 0, 2, 0, 2, bcs_xmin=["W"], bcs_xmax=["W"], bcs_ymin=["W"], bcs_ymax=["W"])
m3 = extrude_refine(m, np.linspace(0, 1, 9), ["v"], ["O"], fun=[lambda x, y, c: x - c], funpar=[1.5])
for el in m3.elem:
    for f in range(6):
        z = el.face_center(f)[2]
        if z == 0.0: assert el.bcs[0, f][0] == "v"
        if z == 1.0: assert el.bcs[0, f][0] == "O"
'''
