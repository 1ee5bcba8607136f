id = "p08-corrected-count"
prop = "C08"
edits = [("neksuite/mesh.py", """            f"wrong number of curved edges: expected {data.ncurv}, found {ncurv}"
        )
""", """            f"wrong number of curved edges: expected {data.ncurv}, found {ncurv}"
        )
        data.ncurv = ncurv
""")]
needs = "a mesh whose stated number of curved edges is not up to date"
breaks = "writing a .re2 file changes the mesh"
demo = '''
from pymech.meshtools import gen_box
from pymech.neksuite import writere2
m = gen_box(1, 1, 0, 1, 0, 1)
m.elem[0].ccurv[0] = "m"
with tempfile.TemporaryDirectory() as t:
    writere2(os.path.join(t, "a.re2"), m)
assert m.ncurv == 0
'''
