"""setup: nothing is installed; confirm the back ends load and warm the generated headers."""
import sys, os, py_compile, glob
H = os.path.dirname(os.path.abspath(__file__)); sys.path.insert(0, H)
import z3, cvc5
for f in glob.glob(H + '/*.py') + glob.glob(H + '/props/*.py'): compile(open(f).read(), f, 'exec')
print('z3', z3.get_version_string(), 'cvc5 ok')
