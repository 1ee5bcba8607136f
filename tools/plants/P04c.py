id = "p04-nine-scalars"
prop = "C04"
edits = [("neksuite/field.py", """        if all(skip_condition):
            skip_elements(h.nb_elems * nb_vars)
        else:
            # NOTE""", """        if all(skip_condition[:9]):
            skip_elements(h.nb_elems * nb_vars)
        else:
            # NOTE""")]
needs = "ten or more scalars of which the first nine are skipped"
breaks = "the scalars after the ninth are skipped as well"
demo = '''
from pymech.core import HexaData
from pymech.neksuite import writenek, readnek
d = HexaData(2, 1, [2, 2, 1], [0, 0, 0, 0, 10])
d.elem[0].scal[:] = 1
with tempfile.TemporaryDirectory() as t:
    f = os.path.join(t, "a0.f00001")
    writenek(f, d)
    r = readnek(f, skip_vars=tuple("s%02d" % i for i in range(1, 10)))
assert r.elem[0].scal[9].min() == 1
'''
