id = "p06-re2-internal-of-first-field"
prop = "C06"
edits = [("neksuite/mesh.py", """                bctype = el.bcs[ifield, iface][0]
                # internal boundary conditions are not written to .re2 files by reatore2
                # and are apparently ignored by Nek5000 even in .rea files
                if bctype != "" and bctype != "E":
""", """                bctype = el.bcs[ifield, iface][0]
                # internal boundary conditions are not written to .re2 files by reatore2
                # and are apparently ignored by Nek5000 even in .rea files
                if bctype != "" and el.bcs[0, iface][0] != "E":
""")]
needs = "a mesh with several fields in which a face is internal in the first one and on the boundary in another (or the other way round)"
breaks = "conditions of later fields are lost, or internal ones written, depending on the first field"
demo = '''
from pymech.neksuite import readre2, writere2
from pymech.meshtools import gen_box
m = gen_box(2, 1, 0, 2, 0, 1, var=[2, 2, 1, 1, 0], bcs_xmin=["W", "t"], bcs_xmax=["W", "t"], bcs_ymin=["W", "t"], bcs_ymax=["W", "t"])
m.elem[0].bcs[1, 1][0] = "I"
m.elem[1].bcs[1, 3][0] = "I"
with tempfile.TemporaryDirectory() as t:
    fn = os.path.join(t, "a.re2")
    writere2(fn, m)
    r = readre2(fn)
assert r.elem[0].bcs[1, 1][0] == "I", r.elem[0].bcs[1, 1]
assert r.elem[0].bcs[0, 1][0] == "", r.elem[0].bcs[0, 1]
'''
