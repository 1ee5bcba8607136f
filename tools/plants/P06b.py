id = "p06-doubled-fields"
prop = "C06"
edits = [("neksuite/mesh.py", """                empty_bcs = np.zeros(el.bcs[:1, :].shape, dtype=el.bcs.dtype)""", """                empty_bcs = np.zeros(el.bcs.shape, dtype=el.bcs.dtype)""")]
needs = "a .re2 file with three or more boundary condition fields"
breaks = "elements have more sets of conditions than there are fields"
demo = '''
from pymech.meshtools import gen_box
from pymech.neksuite import writere2, readre2
m = gen_box(1, 1, 0, 1, 0, 1, var=[2, 2, 1, 1, 1])
with tempfile.TemporaryDirectory() as t:
    f = os.path.join(t, "a.re2")
    writere2(f, m)
    r = readre2(f)
assert r.nbc == 3 and r.elem[0].bcs.shape == (3, 6), r.elem[0].bcs.shape
'''
