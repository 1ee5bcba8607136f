id = "p07-rea-no-three-letter"
prop = "C07"
edits = [("neksuite/mesh.py", """        if "BOUNDARY" in line_split[2:] and "NO" not in line_split:
            nbc = nbc + 1
""", """        if "BOUNDARY" in line_split[2:] and "NO" not in line_split:
            nbc = min(nbc + 1, 3)
""")]
needs = "a .rea file with conditions for four or more fields (two or more passive scalars besides velocity and temperature)"
breaks = "the fields beyond the third are dropped"
demo = '''
from pymech.neksuite import readrea, writerea
from pymech.meshtools import gen_box
n = 4
m = gen_box(1, 1, 0, 2, 0, 1, var=[2, 2, 1, 1, 2], bcs_xmin=["W"] * n, bcs_xmax=["W"] * n, bcs_ymin=["W"] * n, bcs_ymax=["W"] * n)
with tempfile.TemporaryDirectory() as t:
    fn = os.path.join(t, "a.rea")
    writerea(fn, m)
    r = readrea(fn)
assert r.nbc == n, r.nbc
'''
