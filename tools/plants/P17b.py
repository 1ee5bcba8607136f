id = "p17-single-column"
prop = "C17"
edits = [("meshtools.py", """            bc = bcs_xmax[ibc]
            el.bcs[ibc, 1][0] = bc
            el.bcs[ibc, 1][1] = elnum(i, j, nx, ny) + 1
            el.bcs[ibc, 1][2] = 2
            if bc == "P":
                el.bcs[ibc, 1][3] = elnum(0, j, nx, ny) + 1
                el.bcs[ibc, 1][4] = 4
""", """            bc = bcs_xmax[ibc]
            el.bcs[ibc, 1][0] = bc
            el.bcs[ibc, 1][1] = elnum(i, j, nx, ny) + 1
            el.bcs[ibc, 1][2] = 2
            if bc == "P" and i > 0:
                el.bcs[ibc, 1][3] = elnum(0, j, nx, ny) + 1
                el.bcs[ibc, 1][4] = 4
""")]
needs = "a periodic box one element wide"
breaks = "the right side of a single column is periodic with nothing"
demo = '''
from pymech.meshtools import gen_box
m = gen_box(1, 3, 0, 1, 0, 3)
try:
    m.check_connectivity()
except ValueError:
    sys.exit("inconsistent")
'''
