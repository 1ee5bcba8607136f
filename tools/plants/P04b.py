id = "p04-late-scalar-names"
prop = "C04"
edits = [("neksuite/field.py", """    scalar_vars = tuple(f"s{i:02d}" for i in range(1, nb_vars + 1))
    skip_condition = tuple(scalar_vars[ivar] in skip_vars for ivar in range(nb_vars))
""", """    scalar_vars = tuple(f"s0{i}" for i in range(1, nb_vars + 1))
    skip_condition = tuple(scalar_vars[ivar] in skip_vars for ivar in range(nb_vars))
""")]
needs = "a file with ten or more scalars, and one beyond the ninth in the set to skip"
breaks = "scalars from the tenth on are read although they are to be skipped"
demo = '''
from pymech.core import HexaData
from pymech.neksuite import writenek, readnek
d = HexaData(2, 1, [2, 2, 1], [0, 0, 0, 0, 11])
d.elem[0].scal[:] = 1
with tempfile.TemporaryDirectory() as t:
    f = os.path.join(t, "a0.f00001")
    writenek(f, d)
    r = readnek(f, skip_vars=("s10",))
assert r.elem[0].scal[9].max() == 0 and r.elem[0].scal[8].min() == 1 and r.elem[0].scal[10].min() == 1
'''
