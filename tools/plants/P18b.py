id = "p18-single-ring"
prop = "C18"
edits = [("meshtools.py", """    # connectivity
    if internal_bcs:
        build_connectivity(box_o, no, ns)
""", """    # connectivity
    if internal_bcs and no > 1:
        build_connectivity(box_o, no, ns)
""")]
needs = "a circle with one ring of elements and at least two per quarter"
breaks = "neighbours in the ring are not joined"
demo = '''
from pymech.meshtools import gen_circle
m = gen_circle(1.0, 0.5, 2, 1)
try:
    m.check_bcs_present()
except ValueError:
    sys.exit("missing")
'''
