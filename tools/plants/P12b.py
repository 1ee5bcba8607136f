id = "p12-merged-map"
prop = "C12"
edits = [("core.py", """        self.elmap = np.concatenate((self.elmap, other.elmap + nel1))
""", """        self.elmap = np.concatenate(
            (self.elmap, np.arange(nel1 + 1, self.nel + 1, dtype=np.int32))
        )
""")]
needs = "merging a mesh whose element map is not in order"
breaks = "the map of the merged mesh loses the order of the second part"
demo = '''
from pymech.meshtools import gen_box
a = gen_box(1, 1, 0, 1, 0, 1)
b = gen_box(2, 1, 5, 7, 0, 1)
b.elmap = np.array([2, 1], dtype=np.int32)
a.merge(b)
assert a.elmap.tolist() == [1, 3, 2]
'''
