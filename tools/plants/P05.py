id = "p05-reused-read-buffer"
prop = "C05"
edits = [("neksuite/field.py", """        fi = infile.read(bytes_elem)
        fi = np.frombuffer(fi, dtype=emode + h.realtype, count=h.nb_pts_elem)
""", """        infile.readinto(read_buffer)
        fi = np.frombuffer(
            read_buffer, dtype=emode + h.realtype, count=h.nb_pts_elem
        )
"""), ("neksuite/field.py", """    bytes_elem = h.nb_pts_elem * h.wdsz

""", """    bytes_elem = h.nb_pts_elem * h.wdsz
    # reused for every block, to avoid an allocation per block
    read_buffer = bytearray(bytes_elem)

""")]
needs = "a field file that was cut short inside its data"
breaks = "the missing values are silently replaced with those of the previous block instead of raising an error"
demo = '''
from pymech.core import HexaData
from pymech.neksuite import readnek, writenek
d = HexaData(2, 2, [2, 2, 1], [2, 2, 1, 0, 0])
for i, el in enumerate(d.elem):
    el.pres[...] = 1 + np.arange(4).reshape(1, 1, 2, 2) + 100 * i
with tempfile.TemporaryDirectory() as t:
    fn = os.path.join(t, "a0.f00001")
    writenek(fn, d)
    raw = open(fn, "rb").read()
    for cut in (1, 8, 33, 60):
        with open(fn, "wb") as f:
            f.write(raw[:-cut])
        try:
            readnek(fn)
        except Exception:
            continue
        raise SystemExit(f"a file without its last {cut} bytes was read")
'''
