id = "p22-flat-arcs"
prop = "C22"
edits = [("meshtools.py", """    if area > 0.0001 * d1 * d2:
""", """    if area > 0.01 * d1 * d2:
""")]
needs = "edge_circle of an arc whose rise is about a hundredth of its length"
breaks = "flat arcs are reported as straight"
demo = '''
from pymech.meshtools import gen_box, edge_circle
el = gen_box(1, 1, 0, 1, 0, 1).elem[0]
h = 0.004
c = edge_circle(el, 0, np.array([0.5, -h, 0.0]))
r = (0.25 + h * h) / (2 * h)
sys.exit(0 if abs(abs(c[0]) - r) < 1e-6 * r else "radius %g, expected %g" % (c[0], r))
'''
