id = "p18-circle-second-field"
prop = "C18"
edits = [("meshtools.py", """                mesh.elem[elnum(ni - 1, j, ni, nj)].bcs[ibc, 1][0] = bc1[ibc]
""", """                mesh.elem[elnum(ni - 1, j, ni, nj)].bcs[ibc, 1][0] = bc1[0]
""")]
needs = "a circle with conditions for several fields that differ"
breaks = "the circle carries the condition of the first field in every field"
demo = '''
from pymech.meshtools import gen_circle
m = gen_circle(1.0, 0.5, 2, 2, var=[2, 2, 1, 1, 0], bc=["W", "f"])
types = {str(el.bcs[1, 1][0]) for el in m.elem if el.ccurv[1] == "C"}
assert types == {"f"}, types
'''
