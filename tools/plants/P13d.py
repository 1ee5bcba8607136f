id = "p13-joined-twice"
prop = "C13"
edits = [("meshtools.py", """                                lc[iel1, iface1] = True
                                lc[iel2, iface2] = True
""", """                                lc[iel1, iface1] = True
""")]
needs = "three elements with a face at the same place"
breaks = "a face that is already joined is joined again, leaving a link without answer"
demo = '''
from pymech.meshtools import gen_box, generate_internal_bcs
m = gen_box(2, 1, 0, 2, 0, 1, bcs_xmin=[""], bcs_xmax=[""], bcs_ymin=[""], bcs_ymax=[""], internal_bcs=False)
n = gen_box(1, 1, 0, 1, 0, 1, bcs_xmin=["W"], bcs_xmax=[""], bcs_ymin=["W"], bcs_ymax=["W"], internal_bcs=False)
n.merge(m, ignore_all_bcs=True)
k = generate_internal_bcs(n)
bad = [(i, j) for i, e in enumerate(n.elem) for j in range(4) if e.bcs[0, j][0] == "E"
       and int(n.elem[int(e.bcs[0, j][3]) - 1].bcs[0, int(e.bcs[0, j][4]) - 1][3]) != i + 1]
sys.exit("unanswered %s" % bad if bad else 0)
'''
