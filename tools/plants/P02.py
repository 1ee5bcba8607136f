id = "p02-zeroed-map-temperature"
prop = "C02"
edits = [("neksuite/field.py", """        if skip_condition:
            skip_elements(h.nb_elems * nb_vars)
        else:
            if 0 in elmap:
                element_idxs = range(h.nb_elems_file)
            else:
                element_idxs = (idx - 1 for idx in elmap)

            for iel in element_idxs:
                el = data.elem[iel]
                for ivar in range(nb_vars):
                    read_file_into_data(el.temp, ivar)
""", """        if skip_condition:
            skip_elements(h.nb_elems * nb_vars)
        else:
            if elmap[0] == 0:
                element_idxs = range(h.nb_elems_file)
            else:
                element_idxs = (idx - 1 for idx in elmap)

            for iel in element_idxs:
                el = data.elem[iel]
                for ivar in range(nb_vars):
                    read_file_into_data(el.temp, ivar)
""")]
needs = "a file with temperature whose element map contains a zero, but not in its first entry"
breaks = "temperature blocks are assigned through the damaged map instead of in file order"
demo = '''
from pymech.neksuite import readnek
nel, n = 4, 4
elmap = [2, 0, 1, 0]
hdr = ("#std 8  2  2  1 %10i %10i %20.13E %9i %6i %6i XT" % (nel, nel, 1.0, 1, 0, 1)).ljust(132).encode()
xs = np.arange(nel * 2 * n, dtype="<f8")
ts = 100 + np.arange(nel * n, dtype="<f8")
with tempfile.TemporaryDirectory() as t:
    fn = os.path.join(t, "a0.f00001")
    with open(fn, "wb") as f:
        f.write(hdr + struct.pack("<f", 6.54321) + struct.pack("<4i", *elmap) + xs.tobytes() + ts.tobytes())
    d = readnek(fn)
for i in range(nel):
    assert np.array_equal(d.elem[i].temp[0].ravel(), ts[i * n:(i + 1) * n]), i
'''
