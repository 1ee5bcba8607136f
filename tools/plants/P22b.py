id = "p22-upper-face-of-fine-elements"
prop = "C22"
edits = [("core.py", """            kx1, ky1, kz1 = 0, 0, -1
            kx2, ky2, kz2 = 0, -1, -1
            kx3, ky3, kz3 = -1, 0, -1
            kx4, ky4, kz4 = -1, -1, -1
""", """            kx1, ky1, kz1 = 0, 0, 1
            kx2, ky2, kz2 = 0, 1, 1
            kx3, ky3, kz3 = 1, 0, 1
            kx4, ky4, kz4 = 1, 1, 1
""")]
needs = "face 6 of an element with more than two points per direction"
breaks = "the centre of the upper face is taken from points inside the element"
demo = '''
from pymech.core import HexaData
m = HexaData(3, 1, [3, 3, 3], [3, 0, 0, 0, 0])
g = np.array([0, 0.25, 1.0])
m.elem[0].pos[2], m.elem[0].pos[1], m.elem[0].pos[0] = np.meshgrid(g, g, g, indexing="ij")
sys.exit(0 if np.allclose(m.elem[0].face_center(5), (0.5, 0.5, 1)) else "wrong")
'''
