id = "p08-re2-appended"
prop = "C08"
edits = [("neksuite/mesh.py", """    outfile = open(fname, "wb")
""", """    outfile = open(fname, "r+b" if os.path.exists(fname) else "wb")
"""), ("neksuite/mesh.py", """import struct
import sys
""", """import os
import struct
import sys
""")]
needs = "writing a mesh over an existing, longer .re2 file"
breaks = "the end of the old file survives"
demo = '''
from pymech.neksuite import writere2
from pymech.meshtools import gen_box
with tempfile.TemporaryDirectory() as t:
    a, b = os.path.join(t, "a.re2"), os.path.join(t, "b.re2")
    writere2(a, gen_box(4, 4, 0, 1, 0, 1))
    m = gen_box(1, 1, 0, 1, 0, 1)
    writere2(a, m)
    writere2(b, m)
    assert open(a, "rb").read() == open(b, "rb").read()
'''
