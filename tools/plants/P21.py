id = "p21-shallow-map"
prop = "C21"
edits = [("meshtools.py", """    mapped_mesh = copy.deepcopy(mesh)
    for el, mapped_el""", """    mapped_mesh = copy.copy(mesh)
    mapped_mesh.elem = [copy.deepcopy(el) for el in mesh.elem]
    for el, mapped_el""")]
needs = "changing the element map or the variable counts of a mapped mesh (or of its original) in place"
breaks = "the mapped mesh and its original share the element map, the numbers of points and the variable counts"
demo = '''
from pymech.meshtools import gen_box, map2D
m = gen_box(2, 2, 0, 1, 0, 1)
c = map2D(m, lambda x, y: (2 * x, y))
c.elmap[:] = c.elmap[::-1].copy()
assert list(m.elmap) == [1, 2, 3, 4], m.elmap
'''
