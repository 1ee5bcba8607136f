id = "p02-scalar-digits"
prop = "C02"
edits = [("neksuite/field.py", """            return int(variables[index_s + 1 :])""", """            return int(variables[index_s + 1 :].lstrip("0")[0])""")]
needs = "a file with ten or more scalars"
breaks = "the number of scalars is taken from its first digit: the others are missing, and metadata are wrong"
demo = '''
from pymech.neksuite import readnek
hdr = "#std 8  2  2  1 %10i %10i %20.13E %9i %6i %6i S12" % (1, 1, 0.0, 0, 0, 1)
b = hdr.ljust(132).encode() + struct.pack("<f", 6.54321) + struct.pack("<i", 1) + np.arange(48.0).astype("<f8").tobytes()
with tempfile.TemporaryDirectory() as t:
    f = os.path.join(t, "a0.f00001")
    open(f, "wb").write(b)
    r = readnek(f)
assert r.var[4] == 12 and r.elem[0].scal.ravel().tolist() == list(range(48))
'''
