id = "p15-periodicity-of-first-field"
prop = "C15"
edits = [("meshtools.py", """    # Is it possible to have periodic conditions for only some of the fields? If not, we should check for it too.
    for bc1_field, bc2_field in zip(bc1, bc2):
""", """    # periodicity concerns the geometry, hence it is the same for all fields
    for bc1_field, bc2_field in zip(bc1[:1], bc2[:1]):
""")]
needs = "several fields, the second with one periodic and one other end"
breaks = "inconsistent periodicity of the second field is accepted"
demo = '''
from pymech.meshtools import gen_box, extrude
m = gen_box(1, 1, 0, 1, 0, 1, var=[2, 2, 1, 1, 0])
try:
    extrude(m, [0, 1, 2], bc1=["P", "P"], bc2=["P", "t"])
except ValueError:
    sys.exit(0)
sys.exit("accepted")
'''
