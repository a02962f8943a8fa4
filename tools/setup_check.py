"""Nothing to build; shows that the interpreter, z3 and the code are there."""
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.dont_write_bytecode = True
from vsym import core  # noqa: E402
import node  # noqa: E402
import odict  # noqa: E402
x = core.z3.String('x')
s = core.z3.Solver()
s.add(x == 'a', x != 'a')
assert s.check() == core.z3.unsat
print('ok', core.z3.get_version_string(), node.__file__, odict.__file__)
