id = "p04-flat-geometry"
prop = "C04"
edits = [("neksuite/field.py", """        if all(skip_condition):
            skip_elements(h.nb_elems * nb_vars)
        else:
            if 0 in elmap:
                logger.warning(""", """        if all(skip_condition):
            skip_elements(h.nb_elems * len(geometry_vars))
        else:
            if 0 in elmap:
                logger.warning(""")]
needs = "a 2D file of which x and y are skipped"
breaks = "what follows the geometry is read from the wrong place"
demo = '''
from pymech.core import HexaData
from pymech.neksuite import writenek, readnek
d = tempfile.mkdtemp()
f = os.path.join(d, "a0.f00001")
m = HexaData(2, 3, [2, 2, 1], [2, 2, 1, 0, 0])
for i, e in enumerate(m.elem):
    e.vel[:2] = 10 + i
    e.pres[:] = 20 + i
writenek(f, m)
try:
    r = readnek(f, skip_vars=("x", "y"))
    ok = all(np.array_equal(a.vel, b.vel) and np.array_equal(a.pres, b.pres) for a, b in zip(m.elem, r.elem))
except Exception as e:
    ok = False
os.remove(f); os.rmdir(d)
sys.exit(0 if ok else "wrong values")
'''
