id = "p10-plane-order"
prop = "C10"
edits = [("simsonsuite.py", """        d = np.reshape(dd, (nn[0], nn[1]), "F")
    elif ndim == 3:
        # TODO untested
""", """        d = np.reshape(dd, (nn[0], nn[1]), "F" if nn[0] == nn[1] else "A")
    elif ndim == 3:
        # TODO untested
""")]
needs = "a plane with different numbers of points in its two directions"
breaks = "the data are in another order than the coordinates"
demo = '''
import pymech.simsonsuite as ss
def rec(b): return struct.pack("<i", len(b)) + b + struct.pack("<i", len(b))
b = rec(struct.pack("<2i", 2, 3)) + rec(struct.pack("<6d", *range(6))) * 3
with tempfile.TemporaryDirectory() as d:
    f = os.path.join(d, "x.plane")
    open(f, "wb").write(b)
    x, dd, nn, ndim = ss.readplane(f)
    assert (x[0] == dd).all()
'''
