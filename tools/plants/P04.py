id = "p04-mixed-alias-skip"
prop = "C04"
edits = [("neksuite/field.py", """                for idim in range(nb_vars):
                    if skip_condition1[idim] or skip_condition2[idim]:
                        skip_elements()
""", """                skip_condition = skip_condition1 if any(skip_condition1) else skip_condition2
                for idim in range(nb_vars):
                    if skip_condition[idim]:
                        skip_elements()
""")]
needs = "a set of variables to skip that names velocity components in both spellings, such as ux and vy"
breaks = "a component named by its second spelling is read although it was to be skipped"
demo = '''
from pymech.core import HexaData
from pymech.neksuite import readnek, writenek
d = HexaData(3, 2, [2, 2, 2], [3, 3, 0, 0, 0])
for i, el in enumerate(d.elem):
    el.vel[...] = 1 + np.arange(24).reshape(3, 2, 2, 2) + 100 * i
with tempfile.TemporaryDirectory() as t:
    fn = os.path.join(t, "a0.f00001")
    writenek(fn, d)
    e = readnek(fn, skip_vars=("ux", "vz"))
for a, b in zip(d.elem, e.elem):
    assert not b.vel[0].any() and not b.vel[2].any()
    assert np.array_equal(a.vel[1], b.vel[1])
'''
