id = "p11-partner-type"
prop = "C11"
edits = [("core.py", """                    if cbc1 != cbc or iel1 != iel or iface1 != iface:
""", """                    if (iel1, iface1) != (iel, iface) or cbc1 not in ("E", "P"):
""")]
needs = "an internal face answered by a periodic one of the same place (or a periodic one by an internal one)"
breaks = "a connection between conditions of different types is accepted"
demo = '''
from pymech.meshtools import gen_box
m = gen_box(2, 2, 0, 1, 0, 1)
assert m.check_connectivity()
m.elem[1].bcs[0, 3][0] = "P"
try:
    m.check_connectivity()
except ValueError:
    pass
else:
    raise SystemExit("an internal condition answered by a periodic one was accepted")
'''
