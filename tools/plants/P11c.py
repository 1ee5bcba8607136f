id = "p11-distance-in-first-field"
prop = "C11"
edits = [("core.py", """                    elif cbc == "E":  # no check""", """                    elif cbc == "E" and ibc == 0:  # no check""")]
needs = "several fields, the second of which links faces that are apart while the first does not"
breaks = "distant faces linked in the second field are accepted"
demo = '''
from pymech.meshtools import gen_box
w = ["W", "t"]
m = gen_box(3, 1, 0, 3, 0, 1, var=[2, 2, 1, 1, 0], bcs_xmin=w, bcs_xmax=w, bcs_ymin=w, bcs_ymax=w)
m.elem[0].bcs[1, 3][0] = "E"; m.elem[0].bcs[1, 3][3] = 3; m.elem[0].bcs[1, 3][4] = 2
m.elem[2].bcs[1, 1][0] = "E"; m.elem[2].bcs[1, 1][3] = 1; m.elem[2].bcs[1, 1][4] = 4
try:
    m.check_connectivity()
except ValueError:
    sys.exit(0)
sys.exit("accepted")
'''
