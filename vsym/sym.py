"""Symbolic values. They subclass the builtin types, carry the concrete value
of the current path and a Z3 term, and turn every predicate into a branch."""
import re
import sys
import uuid as _uuid
import builtins
from . import core
from .core import z3, CUR

_ESC = re.compile(r'\\u\{([0-9a-fA-F]+)\}|\\u([0-9a-fA-F]{4})|\\x([0-9a-fA-F]{2})')


def unescape(s):
    return _ESC.sub(lambda m: chr(int(m.group(1) or m.group(2) or m.group(3), 16)), s)


def zlit(s):
    out = []
    for c in s:
        o = ord(c)
        if 32 <= o < 127 and c != '\\':
            out.append(c)
        else:
            out.append('\\u{%x}' % o)
    return z3.StringVal(''.join(out))


class Atom(object):
    """One symbolic string term with its concrete value on this path."""
    __slots__ = ('expr', 'conc', 'id', 'facts')

    def __init__(self, expr, conc, facts=None):
        self.expr = expr
        self.conc = conc
        self.id = expr.get_id()
        self.facts = facts


def _norm(parts):
    out = []
    for p in parts:
        if type(p) is str:
            if not p:
                continue
            if out and type(out[-1]) is str:
                out[-1] = out[-1] + p
                continue
        out.append(p)
    return tuple(out)


def mk(parts):
    """Parts -> plain str if fully literal, else SymStr."""
    parts = _norm(parts)
    if not parts:
        return ''
    if len(parts) == 1 and type(parts[0]) is str:
        return parts[0]
    return SymStr(parts)


def parts_of(x):
    if isinstance(x, SymStr):
        return x._p
    return (str.__str__(x),) if x else ()


def conc(x):
    """Concrete content without recording anything."""
    if isinstance(x, SymStr):
        return x._c
    if isinstance(x, SymInt):
        return x._c
    return x


def _eid(p):
    return ('l', p) if type(p) is str else p.id


def _pexpr(p):
    return zlit(p) if type(p) is str else p.expr


def _pc(p):
    return p if type(p) is str else p.conc


def _eq_parts(a, b):
    """Decide equality of two part tuples, recording branches."""
    a = list(a)
    b = list(b)
    # strip common ends
    for end in (0, -1):
        while a and b:
            x, y = a[end], b[end]
            if x is y or (type(x) is not str and type(y) is not str and x.id == y.id):
                a.pop(end)
                b.pop(end)
                continue
            if type(x) is str and type(y) is str:
                n = min(len(x), len(y))
                xs, ys = (x[:n], y[:n]) if end == 0 else (x[-n:], y[-n:])
                if xs != ys:
                    return False
                if len(x) == n:
                    a.pop(end)
                else:
                    a[end] = x[n:] if end == 0 else x[:-n]
                if len(y) == n:
                    b.pop(end)
                else:
                    b[end] = y[n:] if end == 0 else y[:-n]
                continue
            break
    if not a and not b:
        return True
    if not a or not b:
        for p in (a or b):
            if type(p) is str:
                return False
        for p in (a or b):
            if not _eq1(p, ''):
                return False
        return True
    if len(a) == 1 and len(b) == 1:
        return _eq1(a[0], b[0])
    ea = z3.Concat(*[_pexpr(p) for p in a]) if len(a) > 1 else _pexpr(a[0])
    eb = z3.Concat(*[_pexpr(p) for p in b]) if len(b) > 1 else _pexpr(b[0])
    taken = ''.join(map(_pc, a)) == ''.join(map(_pc, b))
    return CUR.rec.branch(ea == eb, taken)


def _eq1(x, y):
    r = CUR.rec
    ix, iy = _eid(x), _eid(y)
    k = r.known_eq(ix, iy)
    if k is not None:
        return k
    taken = _pc(x) == _pc(y)
    if type(ix) is tuple or (type(iy) is not tuple and ix > iy):
        x, y, ix, iy = y, x, iy, ix
    # lazily known facts about an input
    facts = x.facts
    if facts and type(y) is str:
        for (m, arg, val) in facts:
            if m == 'startswith' and y.startswith(arg) != val:
                return False
            if m == 'endswith' and y.endswith(arg) != val:
                return False
            if m == 'contains' and (arg in y) != val:
                return False
            if m == 'empty' and (not y) != val:
                return False
    taken = r.branch(x.expr == _pexpr(y), taken)
    r.note_eq(ix, iy, taken)
    return taken


CONST_HASH = 0x5ca1ab1e
WHITESPACE = ''.join(chr(i) for i in range(0x3001) if chr(i).isspace())


_ASCII = {}


def _ascii_class(name):
    """Regular expression of the ASCII strings that have a property."""
    if not _ASCII:
        chars = [chr(i) for i in range(128)]

        def cls(pred):
            cs = [c for c in chars if pred(c)]
            rs, i = [], 0
            while i < len(cs):
                j = i
                while j + 1 < len(cs) and ord(cs[j + 1]) == ord(cs[j]) + 1:
                    j += 1
                rs.append(z3.Range(zlit(cs[i]), zlit(cs[j])))
                i = j + 1
            return z3.Union(*rs) if len(rs) > 1 else rs[0]
        for n in ('isalnum', 'isalpha', 'isdecimal', 'isdigit', 'isnumeric', 'isspace'):
            _ASCII[n] = z3.Plus(cls(lambda c: getattr(c, n)()))
        _ASCII['isprintable'] = z3.Star(cls(str.isprintable))
        _ASCII['isidentifier'] = z3.Concat(cls(str.isidentifier),
                                           z3.Star(cls(lambda c: ('a' + c).isidentifier())))
        low, up = cls(str.islower), cls(str.isupper)
        nl, nu = cls(lambda c: not c.isupper()), cls(lambda c: not c.islower())
        _ASCII['islower'] = z3.Concat(z3.Star(nl), low, z3.Star(nl))
        _ASCII['isupper'] = z3.Concat(z3.Star(nu), up, z3.Star(nu))
        _ASCII['isascii'] = z3.Star(z3.Range(zlit(chr(0)), zlit(chr(127))))
    return _ASCII[name]


class SymStr(str):
    __slots__ = ('_p', '_c', '_e')

    def __new__(cls, parts):
        c = ''.join([p if type(p) is str else p.conc for p in parts])
        self = str.__new__(cls, c)
        self._p = parts
        self._c = c
        self._e = None
        return self

    @property
    def __class__(self):
        return str

    @property
    def expr(self):
        if self._e is None:
            p = self._p
            self._e = zlit('') if not p else _pexpr(p[0]) if len(p) == 1 else \
                z3.Concat(*[_pexpr(x) for x in p])
        return self._e

    def concretize(self):
        r = CUR.rec
        for p in self._p:
            if type(p) is not str:
                if r.known_eq(p.id, ('l', p.conc)) is True:
                    continue
                r.fix(p.expr, p.conc, lambda v, e=p.expr: e == zlit(v), 'conc',
                      sys._getframe(1).f_code.co_name)
                r.note_eq(p.id, ('l', p.conc), True)
                r.concretized += 1
        return self._c

    def __reduce_ex__(self, proto):
        raise TypeError('cannot pickle symbolic str')

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __hash__(self):
        CUR.rec.native_hash += 1
        return CONST_HASH

    def __repr__(self):
        return mk(("'",) + self._p + ("'",))

    def __str__(self):
        return self

    # -- predicates -------------------------------------------------------
    def __eq__(self, other):
        if self is other:
            return True
        if not isinstance(other, str):
            return NotImplemented
        return _eq_parts(self._p, parts_of(other))

    def __ne__(self, other):
        r = self.__eq__(other)
        return r if r is NotImplemented else not r

    def __lt__(self, other):
        if not isinstance(other, str):
            return NotImplemented
        if self == other:
            return False
        return CUR.rec.branch(self.expr < _sexpr(other), self._c < conc(other))

    def __gt__(self, other):
        if not isinstance(other, str):
            return NotImplemented
        if self == other:
            return False
        return CUR.rec.branch(_sexpr(other) < self.expr, self._c > conc(other))

    def __le__(self, other):
        if not isinstance(other, str):
            return NotImplemented
        return not self > other

    def __ge__(self, other):
        if not isinstance(other, str):
            return NotImplemented
        return not self < other

    def __bool__(self):
        for p in self._p:
            if type(p) is str:
                return True
        for p in self._p:
            if p.facts and ('empty', '', False) in p.facts:
                return True
        for p in self._p:
            if not _eq1(p, ''):
                return True
        return False

    def symlen(self):
        return SymInt(z3.Length(self.expr), len(self._c))

    def __len__(self):
        return int(self.symlen().__index__())

    def __contains__(self, sub):
        if not isinstance(sub, str):
            raise TypeError("'in <string>' requires string as left operand")
        if type(sub) is str:
            if not sub:
                return True
            for p in self._p:
                if type(p) is str and sub in p:
                    return True
            if len(sub) == 1:
                for p in self._p:
                    if type(p) is str:
                        continue
                    f = _fact(p, 'contains', sub)
                    if f is None:
                        f = CUR.rec.branch(z3.Contains(p.expr, zlit(sub)),
                                           sub in p.conc)
                    if f:
                        return True
                return False
        elif sub == self:
            return True
        return CUR.rec.branch(z3.Contains(self.expr, _sexpr(sub)),
                              str.__contains__(self._c, conc(sub)))

    def startswith(self, prefix, *a):
        if isinstance(prefix, tuple):
            for p in prefix:
                if self.startswith(p, *a):
                    return True
            return False
        if a:
            return self[a[0]:(a[1] if len(a) > 1 else None)].startswith(prefix)
        if not isinstance(prefix, str):
            raise TypeError('startswith first arg must be str or a tuple of str, not %s'
                            % type(prefix).__name__)
        pa, pb = list(self._p), list(parts_of(prefix))
        while pa and pb:
            x, y = pa[0], pb[0]
            if x is y or (type(x) is not str and type(y) is not str and x.id == y.id):
                pa.pop(0), pb.pop(0)
                continue
            if type(x) is str and type(y) is str:
                n = min(len(x), len(y))
                if x[:n] != y[:n]:
                    return False
                pa[0:1] = [x[n:]] if len(x) > n else []
                pb[0:1] = [y[n:]] if len(y) > n else []
                continue
            break
        if not pb:
            return True
        if not pa:
            return _eq_parts((), tuple(pb))
        if len(pb) == 1 and type(pb[0]) is str and len(pa) == 1:
            f = _fact(pa[0], 'startswith', pb[0])
            if f is not None:
                return f
        return CUR.rec.branch(z3.PrefixOf(_pxs(pb), _pxs(pa)),
                              _pcs(pa).startswith(_pcs(pb)))

    def endswith(self, suffix, *a):
        if isinstance(suffix, tuple):
            for p in suffix:
                if self.endswith(p, *a):
                    return True
            return False
        if a:
            return self[a[0]:(a[1] if len(a) > 1 else None)].endswith(suffix)
        if not isinstance(suffix, str):
            raise TypeError('endswith first arg must be str or a tuple of str, not %s'
                            % type(suffix).__name__)
        pa, pb = list(self._p), list(parts_of(suffix))
        while pa and pb:
            x, y = pa[-1], pb[-1]
            if x is y or (type(x) is not str and type(y) is not str and x.id == y.id):
                pa.pop(), pb.pop()
                continue
            if type(x) is str and type(y) is str:
                n = min(len(x), len(y))
                if x[-n:] != y[-n:]:
                    return False
                pa[-1:] = [x[:-n]] if len(x) > n else []
                pb[-1:] = [y[:-n]] if len(y) > n else []
                continue
            break
        if not pb:
            return True
        if not pa:
            return _eq_parts((), tuple(pb))
        if len(pb) == 1 and type(pb[0]) is str and len(pa) == 1:
            f = _fact(pa[0], 'endswith', pb[0])
            if f is not None:
                return f
        return CUR.rec.branch(z3.SuffixOf(_pxs(pb), _pxs(pa)),
                              _pcs(pa).endswith(_pcs(pb)))

    # -- construction -----------------------------------------------------
    def __add__(self, other):
        if not isinstance(other, str):
            return NotImplemented
        return mk(self._p + parts_of(other))

    def __radd__(self, other):
        if not isinstance(other, str):
            return NotImplemented
        return mk(parts_of(other) + self._p)

    def __mul__(self, n):
        if not isinstance(n, int):
            return NotImplemented
        return mk(self._p * max(0, n.__index__()))

    __rmul__ = __mul__

    def __mod__(self, other):
        return str_mod(self, other)

    def __getitem__(self, i):
        if isinstance(i, slice):
            if i.step is not None and i.step != 1:
                ex = self.explode()
                return mk(sum((parts_of(x) for x in ex[i]), ()))
            if type(i.start) in (int, type(None)) and type(i.stop) in (int, type(None)):
                a, b = i.start or 0, i.stop
                if a == 0 and b is not None and b > 0:
                    return EndStr(self, b)
                if a < 0 and b is None:
                    return EndStr(self, a)
            return self._slice(i.start, i.stop)
        n = self.symlen()
        if i < 0:
            i = n + i
        if not (0 <= i and i < n):
            raise IndexError('string index out of range')
        return _sub(self, i, 1)

    def _slice(self, a, b):
        n = self.symlen()
        if a is None:
            a = 0
        elif a < 0:
            a = n + a
            if a < 0:
                a = 0
        elif a > n:
            a = n
        if b is None:
            b = n
        elif b < 0:
            b = n + b
            if b < 0:
                b = 0
        elif b > n:
            b = n
        if not (a < b):
            return ''
        return _sub(self, a, b - a)

    def explode(self):
        """List of one-character strings; fixes the length on this path."""
        n = len(self)
        out = []
        if n == 0:
            return out
        e = self.expr
        for i in range(n):
            out.append(mk((Atom(z3.SubString(e, i, 1), self._c[i]),)))
        return out

    def __iter__(self):
        return iter(self.explode())

    def find(self, sub, *a):
        if a:
            base = self[a[0]:(a[1] if len(a) > 1 else None)]
            i = str_call(base, 'find', (sub,), {})
            if isinstance(i, int) and i < 0:
                return -1
            return i + (a[0] if a[0] is not None and a[0] >= 0 else
                        self.symlen() + a[0])
        if not sub in self:
            return -1
        return SymInt(z3.IndexOf(self.expr, _sexpr(sub), 0),
                      self._c.find(conc(sub)))

    def index(self, sub, *a):
        r = self.find(sub, *a)
        if r < 0:
            raise ValueError('substring not found')
        return r

    def _find_split(self, sep):
        """(head, tail) around the first ``sep`` (literal), else None."""
        seen = []
        parts = list(self._p)
        for n, p in enumerate(parts):
            if type(p) is str:
                if sep in p:
                    h, t = p.split(sep, 1)
                    return mk(tuple(seen) + (h,)), mk((t,) + tuple(parts[n + 1:]))
                seen.append(p)
                continue
            s = SymStr((p,))
            if sep in s:
                i = z3.IndexOf(p.expr, zlit(sep), 0)
                ci = p.conc.find(sep)
                L = len(sep)
                h = Atom(z3.SubString(p.expr, 0, i), p.conc[:ci])
                t = Atom(z3.SubString(p.expr, i + L, z3.Length(p.expr) - i - L),
                         p.conc[ci + L:])
                return mk(tuple(seen) + (h,)), mk((t,) + tuple(parts[n + 1:]))
            seen.append(p)
        return None

    def split(self, sep=None, maxsplit=-1):
        if sep is None:
            return self.concretize().split(sep, maxsplit)
        if not sep:
            raise ValueError('empty separator')
        simple = type(sep) is str and len(sep) == 1
        out = []
        cur = self
        while maxsplit != 0:
            if not simple:
                r = _cut(cur, sep)
            else:
                r = cur._find_split(sep) if isinstance(cur, SymStr) else None
            if r is None:
                if not isinstance(cur, SymStr) and simple:
                    out.extend(cur.split(sep, maxsplit))
                    return out
                break
            out.append(r[0])
            cur = r[1]
            maxsplit -= 1
            if len(out) > 200:
                raise core.PathLimit('split')
        out.append(cur)
        return out

    def rsplit(self, sep=None, maxsplit=-1):
        if maxsplit < 0:
            return self.split(sep)
        ps = self.split(sep)
        if len(ps) <= maxsplit + 1:
            return ps
        k = len(ps) - maxsplit
        return [join(sep, ps[:k])] + ps[k:]

    def partition(self, sep):
        ps = self.split(sep, 1)
        if len(ps) == 1:
            return (self, '', '')
        return (ps[0], sep, ps[1])

    def rpartition(self, sep):
        ps = self.rsplit(sep, 1)
        if len(ps) == 1:
            return ('', '', self)
        return (ps[0], sep, ps[1])

    def removeprefix(self, prefix):
        if self.startswith(prefix):
            return self[vlen(prefix):]
        return self

    def removesuffix(self, suffix):
        if suffix and self.endswith(suffix):
            return self[:vlen(self) - vlen(suffix)]
        return self

    def lstrip(self, chars=None):
        return self._strip(chars, 0)

    def rstrip(self, chars=None):
        return self._strip(chars, -1)

    def _strip(self, chars, end):
        if chars is None:
            chars = WHITESPACE
        elif not isinstance(chars, str):
            return getattr(self._c, 'rstrip' if end else 'lstrip')(chars)
        name = 'rstrip' if end else 'lstrip'
        test = 'endswith' if end else 'startswith'
        few = not isinstance(chars, SymStr) and len(chars) < 3
        cur = self
        for _ in range(60):
            if not isinstance(cur, SymStr):
                if isinstance(chars, SymStr) and cur:
                    cur = SymStr((cur,))
                else:
                    return getattr(cur, name)(chars)
            p = cur._p[end]
            rest = cur._p[:-1] if end else cur._p[1:]
            if type(p) is str and not isinstance(chars, SymStr):
                q = getattr(p, name)(chars)
                if q:
                    return mk(rest + (q,) if end else (q,) + rest)
                cur = mk(rest)
                continue
            s = SymStr((p,))
            if few:
                hit = any(getattr(s, test)(ch) for ch in chars)
            else:
                e = s.expr
                n = z3.Length(e)
                first = z3.SubString(e, n - 1, 1) if end else z3.SubString(e, 0, 1)
                one = s._c[-1:] if end else s._c[:1]
                hit = CUR.rec.branch(z3.And(n > 0, z3.Contains(_sexpr(chars), first)),
                                     one != '' and one in conc(chars))
            if hit:
                e = s.expr
                a = Atom(z3.SubString(e, 0, z3.Length(e) - 1), s._c[:-1]) if end else \
                    Atom(z3.SubString(e, 1, z3.Length(e) - 1), s._c[1:])
                cur = mk(rest + (a,) if end else (a,) + rest)
                continue
            if not rest or s:
                return cur
            cur = mk(rest)
        raise core.PathLimit('strip')

    def strip(self, chars=None):
        return str_call(self.lstrip(chars), 'rstrip', (chars,), {})

    def replace(self, old, new, count=-1):
        if not old:
            if count == -1 and not new or count == 0:
                return self
            return self.concretize().replace('', conc(new), count)
        return join(new, self.split(old, count))

    def count(self, sub, *a):
        if not a and type(sub) is str and len(sub) == 1:
            return len(self.split(sub)) - 1
        return self.concretize().count(conc(sub), *a)

    def join(self, it):
        return join(self, it)

    def format(self, *a, **kw):
        return str_format(self.concretize(), a, kw)

    def _charmap(self, fn):
        out = []
        for p in self._p:
            if type(p) is str:
                out.append(fn(p))
                continue
            for ch in SymStr((p,)).explode():
                if not isinstance(ch, SymStr):
                    out.append(fn(ch))
                    continue
                c = ch._c
                code = z3.StrToCode(ch.expr)
                if c.isascii():
                    m = fn(c)
                    if m != c:
                        lo, hi = (65, 90) if c.isupper() else (97, 122)
                        CUR.rec.branch(z3.And(code >= lo, code <= hi), True)
                        out.append(Atom(z3.StrFromCode(code + (ord(m) - ord(c))), m))
                    else:
                        other = 65 if fn('A') != 'A' else 97
                        CUR.rec.branch(z3.And(code < 128, z3.Or(
                            code < other, code > other + 25)), True)
                        out.append(ch._p[0])
                else:
                    out.append(fn(ch.concretize()))
        return mk(tuple(out))

    def lower(self):
        return self._charmap(str.lower)

    def upper(self):
        return self._charmap(str.upper)

    def casefold(self):
        return self._charmap(str.casefold)

    def encode(self, encoding='utf-8', errors='strict'):
        self._c.encode(encoding, errors)
        return SymBytes(self, encoding)

    def __format__(self, spec):
        if not spec:
            return self
        return str.__format__(self.concretize(), spec)


def _conc_method(name):
    f = getattr(str, name)

    def m(self, *a, **kw):
        self.concretize()
        return f(self._c, *[conc(x) for x in a], **kw)
    m.__name__ = name
    return m


for _n in ('capitalize', 'center', 'expandtabs', 'format_map', 'istitle', 'ljust', 'rfind',
           'rindex', 'rjust', 'splitlines', 'swapcase', 'title', 'translate', 'zfill'):
    setattr(SymStr, _n, _conc_method(_n))


def _class_method(name):
    f = getattr(str, name)

    def m(self):
        if not CUR.rec.branch(z3.InRe(self.expr, _ascii_class('isascii')), self._c.isascii()):
            if name == 'isascii':
                return False
            self.concretize()
            return f(self._c)
        if name == 'isascii':
            return True
        return CUR.rec.branch(z3.InRe(self.expr, _ascii_class(name)), f(self._c))
    m.__name__ = name
    return m


for _n in ('isalnum', 'isalpha', 'isascii', 'isdecimal', 'isdigit', 'isidentifier', 'islower',
           'isnumeric', 'isprintable', 'isspace', 'isupper'):
    setattr(SymStr, _n, _class_method(_n))


def _cut(s, sep):
    """(head, tail) around the first ``sep`` in ``s``, else None."""
    if not vcontains(s, sep):
        return None
    if str_call(s, 'startswith', (sep,), {}):
        return '', str_call(s, 'removeprefix', (sep,), {})
    e, o, c = _sexpr(s), _sexpr(sep), conc(s)
    i = z3.IndexOf(e, o, 0)
    n = i + z3.Length(o)
    ci = c.index(conc(sep))
    return (mk((Atom(z3.SubString(e, 0, i), c[:ci]),)),
            mk((Atom(z3.SubString(e, n, z3.Length(e) - n), c[ci + len(conc(sep)):]),)))


def _fact(p, m, arg):
    """Value of a predicate implied by what is assumed about an input."""
    if type(p) is str:
        return getattr(p, m)(arg) if m != 'contains' else arg in p
    f = p.facts
    if not f:
        return None
    for (fm, fa, fv) in f:
        if fm == m and fa == arg:
            return fv
        if fv is False and fm == m:
            if m == 'startswith' and arg.startswith(fa):
                return False
            if m == 'endswith' and arg.endswith(fa):
                return False
            if m == 'contains' and fa in arg:
                return False
        if fm == 'contains' and fv is False and fa in arg:
            return False
    return None


def _sexpr(x):
    return x.expr if isinstance(x, SymStr) else zlit(x)


def _pxs(ps):
    return _pexpr(ps[0]) if len(ps) == 1 else z3.Concat(*[_pexpr(p) for p in ps])


def _pcs(ps):
    return ''.join(map(_pc, ps))


def _ie(x):
    return x.expr if isinstance(x, SymInt) else int(x)


class EndStr(SymStr):
    """The first n (last -n) characters of a string. Compared with a literal
    this is a prefix (suffix) test; anything else cuts the string."""
    __slots__ = ('_of', '_n', '_l')

    def __new__(cls, of, n):
        c = of._c[:n] if n > 0 else of._c[n:]
        self = str.__new__(cls, c)
        self._c = c
        self._e = None
        self._of = of
        self._n = n
        self._l = None
        return self

    @property
    def _p(self):
        if self._l is None:
            r = self._of._slice(0, self._n) if self._n > 0 else self._of._slice(self._n, None)
            self._l = parts_of(r)
        return self._l

    def __eq__(self, other):
        if self._l is None and type(other) is str:
            n = abs(self._n)
            if len(other) > n:
                return False
            if len(other) < n:
                return self._of == other
            return self._of.startswith(other) if self._n > 0 else self._of.endswith(other)
        return SymStr.__eq__(self, other)

    def __ne__(self, other):
        r = self.__eq__(other)
        return r if r is NotImplemented else not r

    __hash__ = SymStr.__hash__


def _sub(s, off, n):
    o, k = int(conc(off)), int(conc(n))
    e = s.expr
    return mk((Atom(z3.SubString(e, _iz(off), _iz(n)), s._c[o:o + k]),))


def _iz(x):
    return x.expr if isinstance(x, SymInt) else z3.IntVal(int(x))


def join(sep, it):
    items = list(it)
    out = []
    for i, x in enumerate(items):
        if not isinstance(x, str):
            raise TypeError('sequence item %d: expected str instance, %s found'
                            % (i, type(x).__name__))
        if i:
            out.extend(parts_of(sep))
        out.extend(parts_of(x))
    return mk(tuple(out))


class SymBytes(bytes):
    """Encoded symbolic text: the codec is modelled as a bijection."""

    def __new__(cls, src, encoding):
        self = bytes.__new__(cls, src._c.encode(encoding))
        self._src = src
        self._enc = encoding
        return self

    @property
    def __class__(self):
        return bytes

    def decode(self, encoding='utf-8', errors='strict'):
        if encoding == self._enc:
            return self._src
        self._src.concretize()
        return bytes(self).decode(encoding, errors)

    def __eq__(self, other):
        if isinstance(other, SymBytes) and other._enc == self._enc:
            return self._src == other._src
        if isinstance(other, bytes):
            try:
                return self._src == other.decode(self._enc)
            except UnicodeDecodeError:
                return False
        return NotImplemented

    def __ne__(self, other):
        r = self.__eq__(other)
        return r if r is NotImplemented else not r

    def __hash__(self):
        return CONST_HASH

    def __bool__(self):
        return bool(self._src)

    def _utf8(self):
        return self._enc.lower().replace('-', '') in ('utf8', 'ascii')

    def symlen(self):
        if self._utf8() and self._src.isascii():
            return self._src.symlen()
        self._src.concretize()
        return bytes.__len__(self)

    def __len__(self):
        return int(self.symlen())

    def __contains__(self, sub):
        if isinstance(sub, bytes) and self._utf8():
            try:
                return vcontains(self._src, sub.decode(self._enc))
            except UnicodeDecodeError:
                pass
        self._src.concretize()
        return bytes.__contains__(self, sub)

    def __getitem__(self, i):
        if isinstance(i, slice) and self._utf8() and self._src.isascii():
            return _encoded(self._src[i], self._enc)
        self._src.concretize()
        return bytes.__getitem__(self, i)

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self


def _bytes_as_text(name):
    # UTF-8 is self-synchronizing: done to the text, as long as the arguments are text too
    def method(self, *args):
        if self._enc.lower().replace('-', '') == 'utf8':
            try:
                new = [a.decode(self._enc) if isinstance(a, bytes) else a for a in args]
            except UnicodeDecodeError:
                new = None
            if name.endswith('strip') and args in ((), (None,)):
                new = [' \t\n\r\x0b\x0c']
            elif name.endswith('strip') and new and (
                    isinstance(new[0], SymStr) or not str(new[0]).isascii()):
                new = None
            if new is not None and not any(isinstance(a, str) and not a for a in new):
                return _encoded(getattr(self._src, name)(*new), self._enc)
        self._src.concretize()
        return getattr(bytes, name)(bytes.__getitem__(self, slice(None)), *args)
    method.__name__ = name
    return method


def _encoded(r, enc):
    if isinstance(r, str):
        return r.encode(enc)
    if isinstance(r, (list, tuple)):
        return type(r)(_encoded(x, enc) for x in r)
    return r


def _bytes_concrete(name):
    def method(self, *args, **kw):
        self._src.concretize()
        return getattr(bytes, name)(self, *args, **kw)
    method.__name__ = name
    return method


for _n in ('strip', 'lstrip', 'rstrip', 'startswith', 'endswith', 'split', 'rsplit', 'partition',
           'rpartition', 'replace', '__add__'):
    setattr(SymBytes, _n, _bytes_as_text(_n))
for _n in dir(bytes):
    if _n not in vars(SymBytes) and _n not in vars(object) and callable(getattr(bytes, _n)) \
            and _n not in ('fromhex', 'maketrans', '__buffer__', '__getnewargs__'):
        setattr(SymBytes, _n, _bytes_concrete(_n))
for _n in ('__repr__', '__lt__', '__le__', '__gt__', '__ge__', '__str__'):
    setattr(SymBytes, _n, _bytes_concrete(_n))


# -- integers -------------------------------------------------------------

class SymInt(int):

    def __new__(cls, expr, c):
        self = int.__new__(cls, c)
        self.expr = expr
        self._c = int(c)
        return self

    @property
    def __class__(self):
        return int

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __hash__(self):
        CUR.rec.native_hash += 1
        return CONST_HASH

    def __index__(self):
        e = self.expr
        CUR.rec.fix(e, self._c, lambda v: e == v)
        return self._c

    def __int__(self):
        return self.__index__()

    def __bool__(self):
        return CUR.rec.branch(self.expr != 0, self._c != 0)

    def __repr__(self):
        return repr(self.__index__())

    __str__ = __repr__

    def __format__(self, spec):
        return format(self.__index__(), spec)


def _i_cmp(name, op):
    nat = getattr(int, name)

    def m(self, other):
        if isinstance(other, int):
            if other is self:
                return name in ('__eq__', '__le__', '__ge__')
            return CUR.rec.branch(op(self.expr, _ie(other)),
                                  nat(self._c, int(conc(other))))
        if isinstance(other, float):
            return nat(self.__index__(), other)
        return NotImplemented
    m.__name__ = name
    return m


import operator as _op  # noqa: E402
for _n, _o in (('__eq__', _op.eq), ('__ne__', _op.ne), ('__lt__', _op.lt),
               ('__le__', _op.le), ('__gt__', _op.gt), ('__ge__', _op.ge)):
    setattr(SymInt, _n, _i_cmp(_n, _o))


def _i_ar(name, op, refl=False):
    nat = getattr(int, name)

    def m(self, other):
        if not isinstance(other, int) or isinstance(other, float):
            return NotImplemented
        a, b = (_ie(other), self.expr) if refl else (self.expr, _ie(other))
        return SymInt(op(a, b), nat(self._c, int(conc(other))))
    m.__name__ = name
    return m


for _n, _o in (('add', _op.add), ('sub', _op.sub), ('mul', _op.mul)):
    setattr(SymInt, '__%s__' % _n, _i_ar('__%s__' % _n, _o))
    setattr(SymInt, '__r%s__' % _n, _i_ar('__r%s__' % _n, _o, True))


def _i_conc(name):
    nat = getattr(int, name)

    def m(self, *a):
        return nat(self.__index__(), *[x.__index__() if isinstance(x, SymInt) else x for x in a])
    m.__name__ = name
    return m


for _n in ('and', 'or', 'xor', 'lshift', 'rshift', 'floordiv', 'mod',
           'truediv', 'divmod', 'pow'):
    for _r in ('', 'r'):
        setattr(SymInt, '__%s%s__' % (_r, _n), _i_conc('__%s%s__' % (_r, _n)))
for _n in ('bit_length', 'to_bytes', 'as_integer_ratio', 'bit_count'):
    setattr(SymInt, _n, _i_conc(_n))
SymInt.__neg__ = lambda self: SymInt(-self.expr, -self._c)
SymInt.__pos__ = lambda self: self
SymInt.__abs__ = lambda self: -self if self < 0 else self


# -- containers ------------------------------------------------------------

def _keq(a, b):
    if a is b:
        return True
    sa, sb = isinstance(a, SymStr), isinstance(b, SymStr)
    if sa or sb:
        if not (isinstance(a, str) and isinstance(b, str)):
            # only a str can equal a str here, unless a type defines __eq__
            o = b if sa else a
            if type(o).__eq__ is object.__eq__ or isinstance(o, (int, tuple, list)):
                return False
        return bool(a == b)
    if type(a) is str and type(b) is str:
        return str.__eq__(a, b)
    if isinstance(a, (SymInt, SymBytes)) or isinstance(b, (SymInt, SymBytes)):
        return bool(a == b)
    if _deepsym(a) or _deepsym(b):
        return bool(a == b)
    try:
        if hash(a) != hash(b):
            return False
    except TypeError:
        raise
    return bool(a == b)


def _deepsym(a):
    if isinstance(a, tuple):
        return any(isinstance(x, (SymStr, SymInt, SymBytes)) or _deepsym(x) for x in a)
    if isinstance(a, _uuid.UUID):
        return isinstance(a.int, SymInt)
    return False


def _chk_hash(k):
    if not isinstance(k, (str, int)):
        hash(k)


_NO = object()


class _View(object):
    def __init__(self, d, kind):
        self._d = d
        self._k = kind

    def _one(self, e):
        return e[0] if self._k == 'k' else e[1] if self._k == 'v' else (e[0], e[1])

    def __iter__(self):
        return _diter(self._d, self._one)

    def __reversed__(self):
        return iter([self._one(e) for e in reversed(self._d._e)])

    def __len__(self):
        return len(self._d._e)

    def __contains__(self, x):
        if self._k == 'k':
            return x in self._d
        return any(bool(x == y) for y in self)

    def __eq__(self, other):
        if self._k == 'v':
            return self is other
        try:
            o = list(other)
        except TypeError:
            return NotImplemented
        return SymSet(self) == SymSet(o)

    def __hash__(self):
        return id(self)

    def __and__(self, o):
        return SymSet(self) & SymSet(o)

    def __or__(self, o):
        return SymSet(self) | SymSet(o)

    def __sub__(self, o):
        return SymSet(self) - SymSet(o)

    def __xor__(self, o):
        return SymSet(self) ^ SymSet(o)

    def isdisjoint(self, o):
        return SymSet(self).isdisjoint(o)

    @property
    def mapping(self):
        return self._d

    def __repr__(self):
        return 'dict_%s(%r)' % ({'k': 'keys', 'v': 'values', 'i': 'items'}[self._k],
                                list(self))


def _diter(d, one):
    i = 0
    ver = d._v
    n = len(d._e)
    while i < n:
        if d._v != ver or len(d._e) != n:
            raise RuntimeError('dictionary changed size during iteration')
        yield one(d._e[i])
        i += 1
    # CPython checks on the exhausting step as well
    if len(d._e) != n:
        raise RuntimeError('dictionary changed size during iteration')


class SymDict(dict):
    """Insertion ordered association list with dict semantics."""
    __slots__ = ('_e', '_v')

    def __new__(cls, *a, **kw):
        self = dict.__new__(cls)
        self._e = []
        self._v = 0
        return self

    def __init__(self, *a, **kw):
        if len(a) > 1:
            raise TypeError('dict expected at most 1 argument, got %d' % len(a))
        if a or kw:
            SymDict.update(self, *a, **kw)

    def _find(self, key):
        _chk_hash(key)
        for e in self._e:
            if _keq(e[0], key):
                return e
        return None

    def __getitem__(self, key):
        e = self._find(key)
        if e is None:
            miss = getattr(type(self), '__missing__', None)
            if miss is not None:
                return miss(self, key)
            raise KeyError(key)
        return e[1]

    def __setitem__(self, key, val):
        e = self._find(key)
        if e is not None:
            e[1] = val
        else:
            self._e.append([key, val])
            self._v += 1

    def __delitem__(self, key):
        e = self._find(key)
        if e is None:
            raise KeyError(key)
        for i, x in enumerate(self._e):
            if x is e:
                del self._e[i]
                break
        self._v += 1

    def __contains__(self, key):
        return self._find(key) is not None

    def __iter__(self):
        return _diter(self, lambda e: e[0])

    def __reversed__(self):
        return iter([e[0] for e in reversed(self._e)])

    def __len__(self):
        return len(self._e)

    def __bool__(self):
        return bool(self._e)

    def get(self, key, default=None):
        e = self._find(key)
        return default if e is None else e[1]

    def setdefault(self, key, default=None):
        e = self._find(key)
        if e is None:
            SymDict.__setitem__(self, key, default)
            return default
        return e[1]

    def pop(self, key, *default):
        e = self._find(key)
        if e is None:
            if default:
                return default[0]
            raise KeyError(key)
        SymDict.__delitem__(self, key)
        return e[1]

    def popitem(self):
        if not self._e:
            raise KeyError('popitem(): dictionary is empty')
        k, v = self._e.pop()
        self._v += 1
        return (k, v)

    def clear(self):
        if self._e:
            self._v += 1
        self._e[:] = []

    def keys(self):
        return _View(self, 'k')

    def values(self):
        return _View(self, 'v')

    def items(self):
        return _View(self, 'i')

    def update(self, *a, **kw):
        if len(a) > 1:
            raise TypeError('update expected at most 1 argument, got %d' % len(a))
        if a:
            o = a[0]
            if isinstance(o, dict) and type(o) is dict:
                for k, v in list(o.items()):
                    SymDict.__setitem__(self, k, v)
            elif hasattr(o, 'keys'):
                for k in o.keys():
                    SymDict.__setitem__(self, k, o[k])
            else:
                for i, pair in enumerate(o):
                    pair = list(pair)
                    if len(pair) != 2:
                        raise ValueError('dictionary update sequence element #%d has length %d; 2 is required' % (i, len(pair)))
                    SymDict.__setitem__(self, pair[0], pair[1])
        for k, v in kw.items():
            SymDict.__setitem__(self, k, v)

    def copy(self):
        n = SymDict()
        n._e = [list(e) for e in self._e]
        return n

    __copy__ = copy

    def __deepcopy__(self, memo):
        import copy as c
        n = type(self)()
        memo[id(self)] = n
        for k, v in self._e:
            n[c.deepcopy(k, memo)] = c.deepcopy(v, memo)
        return n

    def __reduce_ex__(self, proto):
        return (type(self), (), getattr(self, '__dict__', None) or None, None,
                iter([(k, v) for k, v in self._e]))

    @classmethod
    def fromkeys(cls, it, value=None):
        d = cls()
        for k in it:
            d[k] = value
        return d

    def __eq__(self, other):
        if not isinstance(other, dict):
            return NotImplemented
        if len(self) != len(other):
            return False
        o = other if isinstance(other, SymDict) else SymDict(other)
        for k, v in self._e:
            e = SymDict._find(o, k)
            if e is None:
                return False
            if not (e[1] is v or e[1] == v):
                return False
        return True

    def __ne__(self, other):
        r = self.__eq__(other)
        return r if r is NotImplemented else not r

    __hash__ = None

    def __or__(self, o):
        if not isinstance(o, dict):
            return NotImplemented
        n = self.copy()
        n.update(o)
        return n

    def __ror__(self, o):
        if not isinstance(o, dict):
            return NotImplemented
        n = SymDict(o)
        n.update(self)
        return n

    def __ior__(self, o):
        SymDict.update(self, o)
        return self

    def __repr__(self):
        return mk(('{',) + parts_of(join(', ', [
            join('', [vrepr(k), ': ', vrepr(v)]) for k, v in self._e])) + ('}',))


class SymOrderedDict(SymDict):
    __slots__ = ('__dict__',)

    def popitem(self, last=True):
        if not self._e:
            raise KeyError('dictionary is empty')
        k, v = self._e.pop(-1 if last else 0)
        self._v += 1
        return (k, v)

    def move_to_end(self, key, last=True):
        e = self._find(key)
        if e is None:
            raise KeyError(key)
        for i, x in enumerate(self._e):
            if x is e:
                del self._e[i]
                break
        self._e.insert(len(self._e) if last else 0, e)

    def copy(self):
        return type(self)(self)

    __copy__ = copy


class SymDefaultDict(SymDict):
    __slots__ = ('default_factory', '__dict__')

    def __init__(self, factory=None, *a, **kw):
        self.default_factory = factory
        SymDict.__init__(self, *a, **kw)

    def __missing__(self, key):
        if self.default_factory is None:
            raise KeyError(key)
        v = self[key] = self.default_factory()
        return v

    def copy(self):
        return type(self)(self.default_factory, self)

    __copy__ = copy


class SymSet(set):
    __slots__ = ('_l',)

    def __new__(cls, *a):
        self = set.__new__(cls)
        self._l = []
        return self

    def __init__(self, it=()):
        self._l = []
        for x in it:
            self.add(x)

    def _has(self, x):
        _chk_hash(x)
        for y in self._l:
            if _keq(y, x):
                return True
        return False

    def add(self, x):
        if not self._has(x):
            self._l.append(x)

    def discard(self, x):
        _chk_hash(x)
        for i, y in enumerate(self._l):
            if _keq(y, x):
                del self._l[i]
                return

    def remove(self, x):
        n = len(self._l)
        self.discard(x)
        if len(self._l) == n:
            raise KeyError(x)

    def pop(self):
        if not self._l:
            raise KeyError('pop from an empty set')
        return self._l.pop(0)

    def clear(self):
        self._l = []

    def update(self, *its):
        for it in its:
            for x in list(it):
                self.add(x)

    def copy(self):
        return SymSet(self._l)

    __copy__ = copy

    def __deepcopy__(self, memo):
        import copy as c
        return SymSet([c.deepcopy(x, memo) for x in self._l])

    def __reduce_ex__(self, proto):
        return (SymSet, (list(self._l),))

    def __contains__(self, x):
        return self._has(x)

    def __iter__(self):
        return iter(list(self._l))

    def __len__(self):
        return len(self._l)

    def __bool__(self):
        return bool(self._l)

    def __eq__(self, o):
        if not isinstance(o, (set, frozenset)):
            return NotImplemented
        o = o if isinstance(o, SymSet) else SymSet(o)
        return len(self) == len(o) and all(x in o for x in self._l)

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else not r

    __hash__ = None

    def union(self, *os):
        n = SymSet(self._l)
        n.update(*os)
        return n

    def intersection(self, *os):
        n = list(self._l)
        for o in os:
            o = o if isinstance(o, (SymSet, _View, SymDict)) else SymSet(o)
            n = [x for x in n if x in o]
        return SymSet(n)

    def difference(self, *os):
        n = list(self._l)
        for o in os:
            o = o if isinstance(o, (SymSet, _View, SymDict)) else SymSet(o)
            n = [x for x in n if x not in o]
        return SymSet(n)

    def symmetric_difference(self, o):
        return self.difference(o).union(SymSet(o).difference(self))

    def difference_update(self, *os):
        self._l = self.difference(*os)._l

    def intersection_update(self, *os):
        self._l = self.intersection(*os)._l

    def isdisjoint(self, o):
        return not self.intersection(o)._l

    def issubset(self, o):
        o = o if isinstance(o, SymSet) else SymSet(o)
        return all(x in o for x in self._l)

    def issuperset(self, o):
        return all(x in self for x in o)

    def __and__(self, o):
        return self.intersection(o)

    def __or__(self, o):
        return self.union(o)

    def __sub__(self, o):
        return self.difference(o)

    def __xor__(self, o):
        return self.symmetric_difference(o)

    __rand__ = __and__
    __ror__ = __or__

    def __rsub__(self, o):
        return SymSet(o).difference(self)

    def __ior__(self, o):
        self.update(o)
        return self

    def __isub__(self, o):
        self.difference_update(o)
        return self

    def __iand__(self, o):
        self.intersection_update(o)
        return self

    def __le__(self, o):
        return self.issubset(o)

    def __ge__(self, o):
        return self.issuperset(o)

    def __lt__(self, o):
        return self.issubset(o) and len(self) < len(o)

    def __gt__(self, o):
        return self.issuperset(o) and len(self) > len(o)

    def __repr__(self):
        return '{%s}' % ', '.join(repr(x) for x in self._l) if self._l else 'set()'


class SymFrozenSet(SymSet):
    __slots__ = ()

    def __hash__(self):
        return CONST_HASH


# -- helpers called from instrumented code ----------------------------------

def vrepr(x):
    if isinstance(x, SymStr):
        return x.__repr__()
    return repr(x)


def vstr(*a, **kw):
    if len(a) == 1 and not kw:
        x = a[0]
        if isinstance(x, SymStr):
            return x
        if isinstance(x, SymInt):
            return str(x.__index__())
        if isinstance(x, _uuid.UUID) and isinstance(x.int, SymInt):
            x = _uuid.UUID(int=x.int.__index__())
        return str(x)
    return str(*a, **kw)


def vint(*a, **kw):
    if len(a) == 1 and not kw:
        x = a[0]
        if isinstance(x, SymInt):
            return x
        if isinstance(x, _uuid.UUID):
            return x.int
        if isinstance(x, SymStr):
            return int(x.concretize())
    return int(*a, **kw)


def vlen(x):
    if isinstance(x, (SymStr, SymBytes)):
        return x.symlen()
    return len(x)


def vtype(*a, **kw):
    if len(a) == 1 and not kw:
        x = a[0]
        t = type(x)
        if t is SymStr:
            return str
        if t is SymInt:
            return int
        if t is SymBytes:
            return bytes
        if t is dict:
            return SymDict
        if t is set:
            return SymSet
        return t
    return type(*a, **kw)


def _maptypes(t):
    if isinstance(t, tuple):
        return tuple(_maptypes(x) for x in t)
    if t is SymDict:
        return dict
    if t is SymSet:
        return set
    if t is SymFrozenSet:
        return frozenset
    return t


def visinstance(x, t):
    return isinstance(x, _maptypes(t))


def vissubclass(x, t):
    return issubclass(x, _maptypes(t))


def vcontains(container, x):
    """x in container"""
    if type(container) is str and isinstance(x, SymStr):
        return mk_from(container).__contains__(x)
    return x in container


def mk_from(lit):
    """SymStr for a literal (used to dispatch methods with symbolic args)."""
    return SymStr((lit,)) if lit else SymStr(())


def _empty_expr():
    return z3.StringVal('')


_orig_expr = SymStr.expr.fget


def _expr(self):
    if not self._p:
        return z3.StringVal('')
    return _orig_expr(self)


SymStr.expr = property(_expr)


def anysym(args):
    for a in args:
        if isinstance(a, (SymStr, SymInt)):
            return True
        if isinstance(a, (tuple, list)) and anysym(a):
            return True
        if isinstance(a, _uuid.UUID) and isinstance(a.int, SymInt):
            return True
    return False


def str_call(obj, name, args, kw):
    if isinstance(obj, SymStr):
        return getattr(obj, name)(*args, **kw)
    if type(obj) is str:
        if name == 'join':
            items = list(args[0])
            if anysym(items):
                return join(obj, items)
            return obj.join(items)
        if name == 'format':
            return str_format(obj, args, kw)
        if anysym(args):
            if name in ('startswith', 'endswith', 'find', 'index', 'split',
                        'replace', 'count', 'partition', 'rpartition', 'rsplit', 'removeprefix',
                        'removesuffix', 'strip', 'lstrip', 'rstrip'):
                return getattr(mk_from(obj), name)(*args, **kw)
            return getattr(obj, name)(*[
                a.concretize() if isinstance(a, SymStr) else a for a in args], **kw)
    if isinstance(obj, re.Pattern) or obj is re:
        args = [a.concretize() if isinstance(a, SymStr) else a for a in args]
    return getattr(obj, name)(*args, **kw)


import string as _string  # noqa: E402
_FMT = _string.Formatter()


def fmt_value(v, conv, spec):
    if conv == 'r':
        v = vrepr(v)
    elif conv == 's':
        v = vstr(v)
    elif conv == 'a':
        v = ascii(v.concretize() if isinstance(v, SymStr) else v)
    if isinstance(v, SymStr):
        if not spec:
            return v
        return format(v.concretize(), spec)
    if isinstance(v, SymInt):
        return format(v.__index__(), spec)
    if isinstance(v, _uuid.UUID) and isinstance(v.int, SymInt):
        return format(vstr(v), spec)
    return format(v, spec)


def str_format(fmt, args, kw):
    out = []
    auto = 0
    for lit, field, spec, conv in _FMT.parse(conc(fmt)):
        out.append(lit)
        if field is None:
            continue
        m = re.match(r'^([^.\[]*)(.*)$', field, re.S)
        first, rest = m.group(1), m.group(2)
        if first == '':
            v = args[auto]
            auto += 1
        elif first.isdigit():
            v = args[int(first)]
        else:
            v = kw[first]
        for a, i in re.findall(r'\.([^.\[]+)|\[([^\]]*)\]', rest):
            v = getattr(v, a) if a else v[int(i) if i.isdigit() else i]
        if spec and '{' in spec:
            spec = str_format(spec, args[auto:], kw)
        out.extend(parts_of(fmt_value(v, conv, conc(spec or ''))))
    return mk(tuple(out))


_MODRE = re.compile(r'%(\((?P<key>[^)]*)\))?(?P<flags>[#0\- +]*)(?P<w>\*|\d+)?(\.(?P<p>\*|\d+))?(?P<c>[diouxXeEfFgGcrsa%])')


def str_mod(fmt, arg):
    f = conc(fmt)
    args = arg if isinstance(arg, tuple) else (arg,)
    if not anysym(args) and not isinstance(arg, dict) and not any(
            _has_symrepr(a) for a in args):
        return f % arg
    out = []
    pos = 0
    n = 0
    for m in _MODRE.finditer(f):
        out.append(f[pos:m.start()])
        pos = m.end()
        c = m.group('c')
        if c == '%':
            out.append('%')
            continue
        if m.group('key') is not None:
            v = arg[m.group('key')]
        else:
            if n >= len(args):
                raise TypeError('not enough arguments for format string')
            v = args[n]
            n += 1
        simple = not m.group('flags') and not m.group('w') and not m.group('p')
        if c == 's' and simple:
            out.extend(parts_of(vstr(v)))
        elif c == 'r' and simple:
            out.extend(parts_of(vrepr(v)))
        else:
            if isinstance(v, SymStr):
                v = v.concretize()
            elif isinstance(v, SymInt):
                v = v.__index__()
            spec = '%' + m.group('flags') + (m.group('w') or '') + (
                '.' + m.group('p') if m.group('p') else '') + c
            out.append(spec % (v,))
    if n < len(args) and not isinstance(arg, dict):
        raise TypeError('not all arguments converted during string formatting')
    out.append(f[pos:])
    return mk(tuple(out))


def _has_symrepr(a):
    return not isinstance(a, (str, int, float, type(None), type))


def vmod(a, b):
    if isinstance(a, str):
        return str_mod(a, b)
    return a % b


def fstr(parts):
    out = []
    for p in parts:
        if type(p) is tuple:
            v, conv, spec = p
            out.extend(parts_of(fmt_value(v, conv, conc(spec))))
        else:
            out.append(p)
    return mk(tuple(out))


def vsorted_key(x):
    return x


def mkdict(pairs):
    d = SymDict()
    for kind, k, v in pairs:
        if kind == 0:
            SymDict.__setitem__(d, k, v)
        else:
            SymDict.update(d, k)
    return d


def realdict(x):
    if isinstance(x, SymDict):
        r = {}
        for k, v in x._e:
            r[str(conc(k)) if isinstance(k, SymStr) else k] = v
        return r
    return x


def vgetattr(obj, name, *d):
    return getattr(obj, _attrname(obj, name), *d)


def vsetattr(obj, name, v):
    return setattr(obj, _attrname(obj, name), v)


def vdelattr(obj, name):
    return delattr(obj, _attrname(obj, name))


def vhasattr(obj, name):
    return hasattr(obj, _attrname(obj, name))


def _attrname(obj, name):
    """Attribute access with a symbolic name: compare with every attribute
    the type or the instance has; any other name stays symbolic."""
    if not isinstance(name, SymStr):
        return name
    names = []
    for c in type(obj).__mro__:
        names.extend(n for n in c.__dict__ if n not in names)
    names.extend(n for n in getattr(obj, '__dict__', {}) if n not in names)
    for n in names:
        if type(n) is str and name == n:
            return n
    return name


def vdir_safe(obj):
    return dir(obj)


def vid(x):
    return id(x)


def vhash(x):
    if isinstance(x, SymStr):
        return hash(x.concretize())
    if isinstance(x, SymInt):
        return hash(x.__index__())
    return hash(x)


def vrange(*a):
    return range(*[x.__index__() if isinstance(x, SymInt) else x for x in a])
