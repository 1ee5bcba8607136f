id = "p08-geometry-checked-late"
prop = "C08"
edits = [("neksuite/mesh.py", """    if data.var[0] != data.ndim:
        raise ValueError(
            "wrong number of geometric variables for re2 file! expected {}, found {}".format(
                data.ndim, data.var[0]
            )
        )
    #
    # Open file
    outfile = open(fname, "wb")
    #
""", """    # Open file
    outfile = open(fname, "wb")
    #
    if data.var[0] != data.ndim:
        outfile.close()
        raise ValueError(
            "wrong number of geometric variables for re2 file! expected {}, found {}".format(
                data.ndim, data.var[0]
            )
        )
    #
""")]
needs = "a refused write of a field without geometry over an existing .re2 file"
breaks = "the existing file is emptied"
demo = '''
from pymech.core import HexaData
from pymech.neksuite import writere2
d = tempfile.mkdtemp()
f = os.path.join(d, "a.re2")
open(f, "wb").write(b"precious")
m = HexaData(2, 1, [2, 2, 1], [0, 2, 1, 0, 0])
try:
    writere2(f, m)
except ValueError:
    pass
b = open(f, "rb").read()
os.remove(f); os.rmdir(d)
sys.exit(0 if b == b"precious" else "emptied")
'''
