id = "p07-six-digit-elements"
prop = "C07"
edits = [("neksuite/mesh.py", """            iel = int(line[2:8]) - 1""", """            iel = int(line[3:8]) - 1""")]
needs = "a .rea file with more than 99999 elements and a curved edge in one of the later ones"
breaks = "curved edges of those elements are given to other elements"
demo = '''
from pymech.core import HexaData
from pymech.neksuite import writerea, readrea
d = HexaData(2, 100003, [2, 2, 1], [2, 0, 0, 0, 0], 0)
d.elem[100001].ccurv[1] = "C"
d.elem[100001].curv[1, 0] = 2
d.ncurv = 1
with tempfile.TemporaryDirectory() as t:
    f = os.path.join(t, "a.rea")
    writerea(f, d)
    r = readrea(f)
assert r.elem[100001].ccurv[1] == "C" and r.elem[1].ccurv[1] == ""
'''
