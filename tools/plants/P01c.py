id = "p01-digits-of-time"
prop = "C01"
edits = [("neksuite/field.py", """%10i %10i %20.13E %9i""", """%10i %10i %20.12E %9i""")]
needs = "a time with fourteen significant digits"
breaks = "the last digit of the time is lost"
demo = '''
from pymech.core import HexaData
from pymech.neksuite import writenek, readnek
d = tempfile.mkdtemp()
f = os.path.join(d, "a0.f00001")
m = HexaData(2, 1, [2, 2, 1], [2, 0, 0, 0, 0])
m.time = 1.2345678901234
writenek(f, m)
t = readnek(f).time
os.remove(f); os.rmdir(d)
sys.exit(0 if t == m.time else "time %r" % t)
'''
