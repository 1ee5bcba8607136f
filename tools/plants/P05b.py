id = "p05-short-boundary-section"
prop = "C05"
edits = [("neksuite/mesh.py", """        for ibc in range(nbclines):
            # interpret the data
            bc = np.frombuffer(""", """        for ibc in range(min(nbclines, len(buf) // (wdsz * nbcparam))):
            # interpret the data
            bc = np.frombuffer(""")]
needs = "a .re2 file cut inside its last section of boundary conditions"
breaks = "the conditions that are missing are silently left empty"
demo = '''
from pymech.meshtools import gen_box
from pymech.neksuite import writere2, readre2
m = gen_box(2, 1, 0, 2, 0, 1, bcs_xmin=["W"], bcs_xmax=["O"])
with tempfile.TemporaryDirectory() as t:
    f = os.path.join(t, "a.re2")
    writere2(f, m)
    b = open(f, "rb").read()
    open(f, "wb").write(b[:-64])
    try:
        readre2(f)
    except Exception:
        sys.exit(0)
sys.exit("damaged file read")
'''
