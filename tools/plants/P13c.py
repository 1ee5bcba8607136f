id = "p13-left-parameters"
prop = "C13"
edits = [("meshtools.py", """                    bc[0] = ""
                    for i in range(1, 8):
                        bc[i] = 0
    return ndelete
""", """                    bc[0] = ""
                    for i in range(1, 6):
                        bc[i] = 0
    return ndelete
""")]
needs = "internal conditions with data in the last two parameters"
breaks = "these parameters stay on faces without a condition"
demo = '''
from pymech.meshtools import gen_box, delete_internal_bcs
m = gen_box(2, 1, 0, 2, 0, 1)
m.elem[0].bcs[0, 1][7] = 3.0
delete_internal_bcs(m)
sys.exit(0 if m.elem[0].bcs[0, 1][7] == 0 else "left")
'''
