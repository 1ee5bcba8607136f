id = "p15-midpoints-of-whole-numbers"
prop = "C15"
edits = [("meshtools.py", """    nel2d = mesh.nel
    nz = len(z) - 1
    nel3d = mesh.nel * nz
    nbc = mesh.nbc
    mesh3d.nel""", """    nel2d = mesh.nel
    nz = len(z) - 1
    z = np.asarray(z, dtype=mesh.elem[0].pos.dtype if nz > 1 else np.float32)
    nel3d = mesh.nel * nz
    nbc = mesh.nbc
    mesh3d.nel""")]
needs = "a single layer with a z value that single precision does not hold"
breaks = "the z values of the layer are rounded to single precision"
demo = '''
from pymech.meshtools import gen_box, extrude
m = extrude(gen_box(1, 1, 0, 1, 0, 1), [0.1, 0.3])
assert m.elem[0].pos[2, 0].max() == 0.1 and m.elem[0].pos[2, 1].max() == 0.3
'''
