"""Path recorder: the current run's path condition and the symbolic inputs."""
import sys
Z3PATH = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'
if Z3PATH not in sys.path:
    sys.path.append(Z3PATH)
import z3  # noqa: E402
from .plain import PathControl, PathAbort, PathLimit, CheckFailed  # noqa: E402,F401


class Branch(object):
    __slots__ = ('expr', 'taken', 'kind', 'key', 'site', 'neg')

    def __init__(self, expr, taken, kind, site=None):
        self.expr = expr
        self.taken = taken
        self.kind = kind      # 'br' flippable, 'base' fixed, 'conc' limited
        self.key = (expr.get_id(), taken)
        self.site = site
        self.neg = None

    def lit(self):
        return self.expr if self.taken else z3.Not(self.expr)

    def neglit(self):
        return z3.Not(self.expr) if self.taken else self.expr


class Recorder(object):
    """State of one path."""

    def __init__(self, inputs, limit=6000, expect=None, multi=None):
        self.expect = expect or ()    # keys of the branches to come
        self.multi = multi if multi is not None else {}
        self.inputs = inputs          # name -> concrete value (requested)
        self.used = {}                # name -> (z3 var, concrete value, facts)
        self.path = []
        self.memo = {}
        self.limit = limit
        self.uf = {}
        self.diseq = set()
        self.native_hash = 0
        self.concretized = 0
        self.implied = 0

    # -- string equality closure ----------------------------------------
    def find(self, k):
        uf = self.uf
        while True:
            p = uf.get(k)
            if p is None:
                return k
            k = p

    def known_eq(self, a, b):
        """True / False / None for what the path already implies (a, b are
        literal strings tagged ('l', s) or atom ids)."""
        ra, rb = self.find(a), self.find(b)
        if ra == rb:
            return True
        if type(ra) is tuple and type(rb) is tuple:
            return False
        if (ra, rb) in self.diseq or (rb, ra) in self.diseq:
            return False
        return None

    def note_eq(self, a, b, taken):
        ra, rb = self.find(a), self.find(b)
        if taken:
            if ra == rb:
                return
            if type(ra) is tuple:
                ra, rb = rb, ra
            self.uf[ra] = rb
            self.diseq = set((self.find(x), self.find(y)) for x, y in self.diseq)
        else:
            self.diseq.add((ra, rb))

    # ---------------------------------------------------------------------
    def branch(self, expr, taken, kind='br', site=None):
        """Record that ``expr`` evaluated to ``taken``; return ``taken``."""
        k = expr.get_id()
        m = self.memo.get(k)
        if m is not None:
            self.implied += 1
            return m[0]
        if z3.is_true(expr) or z3.is_false(expr):
            return taken
        taken = bool(taken)
        self.memo[k] = (taken, expr)
        self.path.append(Branch(expr, taken, kind, site))
        if len(self.path) > self.limit:
            raise PathLimit('branches')
        return taken

    def fix(self, expr, value, mkeq, kind='br', site=None):
        """Fix a term to its concrete value: a multi-way branch, recorded as
        the values refused so far followed by the value taken."""
        eid = expr.get_id()
        eq = mkeq(value)
        if eq.get_id() in self.memo:
            self.implied += 1
            return
        while len(self.path) < len(self.expect):
            k, taken = self.expect[len(self.path)]
            m = self.multi.get(k)
            if m is None or m[0] != eid or taken or m[1] == value:
                break
            self.branch(m[2], False, kind, site)
        self.multi[eq.get_id()] = (eid, value, eq, expr)
        self.branch(eq, True, kind, site)

    def base(self, expr):
        self.path.append(Branch(expr, True, 'base'))


class _Cur(object):
    rec = None


CUR = _Cur()
