"""Threads of the code under test, all interleavings in one formula.

Every thread body runs alone on the real source; reads and writes of shared
cells (attributes of nodes and of objects of node.locking, entries of its
module and class level containers, rebound globals) and operations on locks
are intercepted. What a read returns is a choice among the writes known so
far, so that all paths of a thread come out as lists of events (a fixpoint
over the writes). The interleaving is symbolic: one clock per event, each
read must see the last write before it, sections of one lock do not overlap.
The solver decides whether any clock assignment violates the property; a
model is replayed with real threads and real locks in the order it gives.

argv: prop scenario-json budget out-file tmp-dir   (worker)
"""
import ast
import importlib
import json
import os
import subprocess
import sys
import threading
import time
import types
import weakref
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
SRC = os.environ.get('VSYM_SRC', '/repo/src')
for _p in (ROOT, SRC):
    if _p not in sys.path:
        sys.path.insert(0, _p)
sys.dont_write_bytecode = True

REAL_LOCK, REAL_RLOCK = threading.Lock, threading.RLock
LOCK_TYPES = (type(REAL_LOCK()), type(REAL_RLOCK()))
ABSENT = '<absent>'


class Blocked(BaseException):
    """The thread waits for itself."""


class Diverged(BaseException):
    pass


class State(object):
    mode = 'setup'       # setup, record, gate
    run = None           # Run in record mode
    gate = None
    contested = set()
    objs = {}            # id -> (object, key, run that made it)
    dicts = []
    reg = {}             # (kind, tid, n) -> object
    count = {}           # tid -> allocations in setup and gate mode
    tls = threading.local()


S = State()


def tid():
    if S.mode == 'record':
        return S.run.tid
    if S.mode == 'gate':
        return getattr(S.tls, 'tid', 'main')
    return 'main'


def alloc(kind, make):
    """A shared object; the n-th of its thread, the same in every run."""
    t = tid()
    if S.mode == 'record':
        S.run.allocs += 1
        n = S.run.allocs
    else:
        n = S.count[t] = S.count.get(t, 0) + 1
    key = (kind, t, n)
    if key not in S.reg:
        S.reg[key] = make(key)
    return S.reg[key]


def token(v):
    t = getattr(type(v), '_conc_token', None)
    if t is not None:
        return t(v)
    if v is None or isinstance(v, (bool, int, str, float)):
        return ('p', repr(v))
    return ('x', id(v))


# -- locks ---------------------------------------------------------------------

class LockProxy(object):
    reentrant = False

    def __init__(self, key):
        self.key = key
        self.real = (REAL_RLOCK if self.reentrant else REAL_LOCK)()

    def _conc_token(self):
        return self.key

    def acquire(self, blocking=True, timeout=-1):
        if S.mode == 'record':
            return S.run.acquire(self, blocking and timeout < 0)
        if S.mode == 'gate' and tid() != 'main':
            return S.gate.acquire(self, blocking, timeout)
        return self.real.acquire(blocking, timeout)

    def __enter__(self):
        return self.acquire()

    def release(self):
        if S.mode == 'record':
            return S.run.release(self)
        if S.mode == 'gate' and tid() != 'main':
            S.gate.at(('rel', self.key), self.real.release)
            return
        self.real.release()

    def __exit__(self, *a):
        self.release()

    def locked(self):
        return self.real.locked()

    def _is_owned(self):
        if S.mode == 'record':
            return S.run.depth.get(self.key, 0) > 0
        return self.real._is_owned()


class RLockProxy(LockProxy):
    reentrant = True


def Lock():
    return alloc('lock', LockProxy)


def RLock():
    return alloc('rlock', RLockProxy)


# -- cells -----------------------------------------------------------------------

def cell_read(cell, initial):
    """initial: function that gives the value, or ABSENT."""
    if S.mode == 'record':
        return S.run.read(cell, initial)
    if S.mode == 'gate' and tid() != 'main' and cell in S.contested:
        return S.gate.at(('r', cell), initial, True)
    return initial()


def cell_write(cell, value, do):
    if S.mode == 'record':
        S.run.write(cell, value)
    elif S.mode == 'gate' and tid() != 'main' and cell in S.contested:
        S.gate.at(('w', cell), do)
    else:
        do()


def cell_setdefault(cell, initial, value, do):
    """Read and write at once; returns the value then."""
    if S.mode == 'record':
        return S.run.setdefault(cell, initial, value)

    def both():
        v = initial()
        if v is ABSENT:
            do()
            v = value
        return v
    if S.mode == 'gate' and tid() != 'main' and cell in S.contested:
        return S.gate.at(('rw', cell), both, True)
    return both()


class SharedDict(object):
    """A module or class level container."""

    def __init__(self, key, real):
        self.key = key
        self.real = real
        S.dicts.append(self)

    def _conc_token(self):
        return self.key

    def _cell(self, k):
        return (self.key, token(k))

    def _read(self, k):
        def initial():
            try:
                return self.real[k]
            except KeyError:
                return ABSENT
        return cell_read(self._cell(k), initial)

    def __getitem__(self, k):
        v = self._read(k)
        if v is ABSENT:
            raise KeyError(k)
        return v

    def get(self, k, default=None):
        v = self._read(k)
        return default if v is ABSENT else v

    def __contains__(self, k):
        return self._read(k) is not ABSENT

    def __setitem__(self, k, v):
        cell_write(self._cell(k), v, lambda: self.real.__setitem__(k, v))

    def __delitem__(self, k):
        if self._read(k) is ABSENT:
            raise KeyError(k)
        cell_write(self._cell(k), ABSENT, lambda: self.real.__delitem__(k))

    def pop(self, k, *d):
        v = self._read(k)
        if v is ABSENT:
            if d:
                return d[0]
            raise KeyError(k)
        cell_write(self._cell(k), ABSENT, lambda: self.real.pop(k, None))
        return v

    def setdefault(self, k, v=None):
        def initial():
            try:
                return self.real[k]
            except KeyError:
                return ABSENT
        return cell_setdefault(self._cell(k), initial, v, lambda: self.real.__setitem__(k, v))


class InstanceDict(object):
    """__dict__ of a hooked object."""

    def __init__(self, obj):
        self.obj = obj

    def __getitem__(self, k):
        v = attr_read(self.obj, k)
        if v is ABSENT:
            raise KeyError(k)
        return v

    def get(self, k, default=None):
        v = attr_read(self.obj, k)
        return default if v is ABSENT else v

    def __contains__(self, k):
        return attr_read(self.obj, k) is not ABSENT

    def __setitem__(self, k, v):
        attr_write(self.obj, k, v)

    def setdefault(self, k, v=None):
        obj = self.obj
        d = real_dict(obj)
        return cell_setdefault((objkey(obj), k), lambda: d.get(k, ABSENT), v,
                               lambda: d.__setitem__(k, v))

    def pop(self, k, *d):
        v = attr_read(self.obj, k)
        if v is ABSENT:
            if d:
                return d[0]
            raise KeyError(k)
        attr_write(self.obj, k, ABSENT)
        return v


def real_dict(obj):
    return object.__getattribute__(obj, '__dict__')


def objkey(obj):
    got = S.objs.get(id(obj))
    if got is None:
        t = tid()
        if S.mode == 'record':
            S.run.allocs += 1
            n = S.run.allocs
        else:
            n = S.count[t] = S.count.get(t, 0) + 1
        got = S.objs[id(obj)] = (obj, ('obj', t, n), S.run if S.mode == 'record' else None)
    return got[1]


def attr_read(obj, name):
    d = real_dict(obj)
    return cell_read((objkey(obj), name), lambda: d.get(name, ABSENT))


def attr_write(obj, name, value):
    d = real_dict(obj)

    def do():
        if value is ABSENT:
            d.pop(name, None)
        else:
            d[name] = value
    if S.mode == 'record' and S.objs.get(id(obj), (0, 0, 0))[2] is S.run:
        do()          # its own object
    cell_write((objkey(obj), name), value, do)


def tracked(cls, name):
    """Is name stored in the instance?"""
    for c in cls.__mro__:
        if name in c.__dict__:
            v = c.__dict__[name]
            if hasattr(type(v), '__set__') or isinstance(
                    v, (types.FunctionType, classmethod, staticmethod)):
                return False
            return not (name.startswith('__') and name not in ('__parent__', '__name__')) \
                and not hasattr(type(v), '__get__')
    return not name.startswith('__')


def hook(cls):
    """Intercept instance attributes of cls."""
    if ' hooked' in cls.__dict__:
        return cls
    orig_get, orig_set, orig_del = cls.__getattribute__, cls.__setattr__, cls.__delattr__

    def __getattribute__(self, name):
        if name == '__dict__':
            return InstanceDict(self) if S.mode != 'setup' else real_dict(self)
        if S.mode == 'setup' or not tracked(type(self), name):
            if S.mode == 'setup' and not name.startswith('__'):
                objkey(self)
            return orig_get(self, name)
        v = attr_read(self, name)
        if v is ABSENT:
            for c in type(self).__mro__:
                if name in c.__dict__:
                    return c.__dict__[name]
            ga = getattr(type(self), '__getattr__', None)
            if ga is not None:
                return ga(self, name)
            raise AttributeError(name)
        return v

    def __setattr__(self, name, value):
        if S.mode == 'setup' or not tracked(type(self), name):
            if S.mode == 'setup':
                objkey(self)
            return orig_set(self, name, value)
        attr_write(self, name, value)

    def __delattr__(self, name):
        if S.mode == 'setup' or not tracked(type(self), name):
            return orig_del(self, name)
        if attr_read(self, name) is ABSENT:
            raise AttributeError(name)
        attr_write(self, name, ABSENT)

    cls.__getattribute__ = __getattribute__
    cls.__setattr__ = __setattr__
    cls.__delattr__ = __delattr__
    cls._conc_token = objkey
    setattr(cls, ' hooked', True)
    return cls


class Local(object):
    """threading.local of simulated threads."""

    def __init__(self, *a):
        object.__setattr__(self, 'd', {})

    def _d(self):
        d = object.__getattribute__(self, 'd')
        if S.mode == 'record':
            return d.setdefault(('run', id(S.run)), {})
        return d.setdefault(threading.get_ident(), {})

    def __getattr__(self, name):
        try:
            return self._d()[name]
        except KeyError:
            raise AttributeError(name)

    def __setattr__(self, name, v):
        self._d()[name] = v

    def __delattr__(self, name):
        try:
            del self._d()[name]
        except KeyError:
            raise AttributeError(name)

    @property
    def __dict__(self):
        return self._d()


def get_ident():
    return hash(('thread', str(tid()))) & 0xffffffff


# -- loading the code under test -------------------------------------------------

class Globals(ast.NodeTransformer):
    """Globals that functions rebind become attributes of a hooked object."""

    def __init__(self, names):
        self.names = names

    def visit_Global(self, n):
        rest = [x for x in n.names if x not in self.names]
        return ast.copy_location(ast.Global(rest) if rest else ast.Pass(), n)

    def visit_Name(self, n):
        if n.id in self.names:
            return ast.copy_location(ast.Attribute(
                ast.Name('__shared__', ast.Load()), n.id, n.ctx), n)
        return n


class Namespace(object):
    pass


def shim_threading():
    m = types.ModuleType('threading')
    m.__dict__.update({k: v for k, v in threading.__dict__.items() if not k.startswith('__')})
    m.Lock, m.RLock, m.local, m.get_ident = Lock, RLock, Local, get_ident
    m.Semaphore = m.BoundedSemaphore = lambda value=1: Lock()
    return m


def load_locking():
    """node.locking with its shared state intercepted."""
    path = os.path.join(SRC, 'node', 'locking.py')
    with open(path) as f:
        tree = ast.parse(f.read(), path)
    names = {x for n in ast.walk(tree) if isinstance(n, ast.Global) for x in n.names}
    if names:
        tree = ast.fix_missing_locations(Globals(names).visit(tree))
    mod = types.ModuleType('node.locking')
    mod.__file__ = path
    hook(Namespace)
    mod.__dict__['__shared__'] = Namespace()
    real = sys.modules['threading']
    sys.modules['threading'] = shim_threading()
    try:
        exec(compile(tree, path, 'exec', dont_inherit=True), mod.__dict__)
    finally:
        sys.modules['threading'] = real
    sys.modules['node.locking'] = mod
    import node
    node.locking = mod

    def wrap(v, where):
        if isinstance(v, LOCK_TYPES):
            return RLock() if isinstance(v, LOCK_TYPES[1]) else Lock()
        if isinstance(v, (dict, weakref.WeakKeyDictionary, weakref.WeakValueDictionary)):
            return SharedDict(('dict', 'main', where), v)
        return v
    for k, v in list(mod.__dict__.items()):
        if not k.startswith('__'):
            mod.__dict__[k] = wrap(v, k)
    for k, v in list(real_dict(mod.__dict__['__shared__']).items()):
        if True:
            real_dict(mod.__dict__['__shared__'])[k] = wrap(v, k)
    for c in [v for v in mod.__dict__.values() if isinstance(v, type)
              and v.__module__ == 'node.locking']:
        for k, v in list(c.__dict__.items()):
            if not k.startswith('__'):
                w = wrap(v, '%s.%s' % (c.__name__, k))
                if w is not v:
                    setattr(c, k, w)
        hook(c)
    return mod


# -- recording -----------------------------------------------------------------------

class Run(object):
    """One run of one thread."""

    def __init__(self, t, body, prefix, writes):
        self.tid, self.body, self.prefix, self.all = t, body, list(prefix), writes
        self.choices = []          # (index, number of alternatives)
        self.events = []
        self.own = {}
        self.depth = {}
        self.allocs = 0
        self.error = None

    def pick(self, n):
        i = len(self.choices)
        c = self.prefix[i] if i < len(self.prefix) else 0
        self.choices.append((c, n))
        return c

    def others(self, cell):
        return [v for (t, v) in self.all.get(cell, {}).values() if t != self.tid]

    def read(self, cell, initial):
        own = self.own[cell] if cell in self.own else initial()
        cands = [own]
        for v in self.others(cell):
            if all(token(v) != token(c) for c in cands):
                cands.append(v)
        if len(cands) == 1 and not self.others(cell):
            return own
        v = cands[self.pick(len(cands))] if len(cands) > 1 else own
        self.own[cell] = v    # from now on this one, or a later one of others
        self.events.append(('r', cell, token(v)))
        return v

    def write(self, cell, value):
        self.own[cell] = value
        self.events.append(('w', cell, token(value)))
        self.all.setdefault(cell, {})[(self.tid, token(value))] = (self.tid, value)

    def setdefault(self, cell, initial, value):
        own = self.own[cell] if cell in self.own else initial()
        cands = [own]
        for v in self.others(cell):
            if all(token(v) != token(c) for c in cands):
                cands.append(v)
        v = cands[self.pick(len(cands))] if len(cands) > 1 else own
        if v is ABSENT:
            self.own[cell] = value
            self.all.setdefault(cell, {})[(self.tid, token(value))] = (self.tid, value)
            self.events.append(('rw', cell, token(ABSENT), token(value)))
            return value
        self.own[cell] = v
        self.events.append(('rw', cell, token(v), None))
        return v

    def acquire(self, lock, blocking):
        d = self.depth.get(lock.key, 0)
        if d and not lock.reentrant:
            if blocking:
                self.events.append(('acq', lock.key))
                raise Blocked()
            return False
        if not d and not blocking and self.pick(2):
            self.events.append(('busy', lock.key))
            return False
        self.depth[lock.key] = d + 1
        if not d:
            self.events.append(('acq', lock.key))
        return True

    def release(self, lock):
        d = self.depth.get(lock.key, 0)
        if not d:
            raise RuntimeError('cannot release un-acquired lock')
        self.depth[lock.key] = d - 1
        if d == 1:
            self.events.append(('rel', lock.key))

    def go(self):
        S.run, S.mode = self, 'record'
        try:
            self.body()
        except Blocked:
            pass
        except Exception as e:
            self.error = '%s: %s' % (type(e).__name__, e)
        finally:
            S.mode = 'setup'
        return self


class Api(object):
    hook = staticmethod(hook)
    S = S

    def __init__(self):
        self.inside = []
        self.seen = []

    def pick(self, label, n):
        """A free choice of the thread, 0..n-1."""
        if S.mode == 'record':
            i = S.run.pick(n) if n > 1 else 0
            S.run.events.append(('pick', label, i))
            return i
        if S.mode == 'gate':
            return S.gate.picked(label)
        return 0

    def enter(self, what=0):
        """The thread is inside the locked section."""
        if S.mode == 'record':
            S.run.events.append(('in', what))
        elif S.mode == 'gate':
            def do():
                self.inside.append((tid(), what))
                self.seen.append(list(self.inside))
            S.gate.at(('in', what), do)

    def leave(self, what=0):
        if S.mode == 'record':
            S.run.events.append(('out', what))
        elif S.mode == 'gate':
            S.gate.at(('out', what), lambda: self.inside.remove((tid(), what)))


def paths_of(bodies, limit=5000):
    """All paths of all threads."""
    writes = {}
    while True:
        before = {c: set(w) for c, w in writes.items()}
        out = []
        for t, body in enumerate(bodies):
            todo, runs = [[]], []
            while todo:
                if len(runs) > limit:
                    raise RuntimeError('too many paths')
                prefix = todo.pop()
                r = Run(t, body, prefix, writes).go()
                runs.append(r)
                for i in range(len(prefix), len(r.choices)):
                    for alt in range(r.choices[i][0] + 1, r.choices[i][1]):
                        todo.append([c for c, n in r.choices[:i]] + [alt])
            out.append(runs)
        if {c: set(w) for c, w in writes.items()} == before:
            break
    # writes nobody reads do not matter
    cells = {e[1] for runs in out for r in runs for e in r.events if e[0] in ('r', 'rw')}
    for runs in out:
        for r in runs:
            r.events = [e for e in r.events if e[0] != 'w' or e[1] in cells]
    return out


def merged(paths):
    """Paths which differ in free choices only are one for the formula."""
    out = []
    for runs in paths:
        by = {}
        for r in runs:
            r.full = r.events
            r.events = [e for e in r.events if e[0] != 'pick']
            by.setdefault((tuple(r.events), bool(r.error)), r)
        out.append(list(by.values()))
    return out


# -- the formula ------------------------------------------------------------------------

class Model(object):
    def __init__(self, paths):
        from . import core
        self.z3 = z3 = core.z3
        self.paths = paths
        self.cache = {}
        self.nt = len(paths)
        self.sel = [z3.Int('path%d' % t) for t in range(self.nt)]
        self.upto = [z3.Int('upto%d' % t) for t in range(self.nt)]
        self.clock = [[z3.Int('c%d_%d' % (t, k)) for k in range(
            max(1, max(len(r.events) for r in paths[t])))] for t in range(self.nt)]
        self.solver = z3.Solver()
        self.solver.set('timeout', 120000)
        self.queries = self.sat = self.unsat = self.unknown = 0
        self.time = 0.0
        self.encode()

    def ex(self, t, p, k):
        got = self.cache.get((t, p, k))
        if got is None:
            got = self.cache[t, p, k] = self.z3.And(self.sel[t] == p, self.upto[t] > k)
        return got

    def lt(self, a, b):
        """Clock of (thread, position) a before that of b."""
        got = self.cache.get((a, b))
        if got is None:
            got = self.cache[a, b] = self.clock[a[0]][a[1]] < self.clock[b[0]][b[1]]
        return got

    def encode(self):
        z3, s = self.z3, self.solver
        clocks = [c for row in self.clock for c in row]
        if len(clocks) > 1:
            s.add(z3.Distinct(clocks))
        for t, row in enumerate(self.clock):
            s.add(self.sel[t] >= 0, self.sel[t] < len(self.paths[t]))
            s.add(self.upto[t] >= 0)
            for p, r in enumerate(self.paths[t]):
                s.add(z3.Implies(self.sel[t] == p, self.upto[t] <= len(r.events)))
            for a, b in zip(row, row[1:]):
                s.add(a < b)
            for c in row:
                s.add(c >= 0)
        writes = {}
        sections = {}
        self.ins = []
        for t in range(self.nt):
            for p, r in enumerate(self.paths[t]):
                open_ = {}
                inside = {}
                for k, e in enumerate(r.events):
                    if e[0] == 'w':
                        writes.setdefault(e[1], []).append((t, p, k, e[2]))
                    elif e[0] == 'rw' and e[3] is not None:
                        writes.setdefault(e[1], []).append((t, p, k, e[3]))
                    elif e[0] == 'acq':
                        open_.setdefault(e[1], k)
                    elif e[0] == 'rel':
                        sections.setdefault(e[1], []).append((t, p, open_.pop(e[1]), k))
                    elif e[0] == 'in':
                        inside[e[1]] = k
                    elif e[0] == 'out':
                        self.ins.append((t, p, inside.pop(e[1]), k, e[1]))
                for l, k in open_.items():
                    sections.setdefault(l, []).append((t, p, k, None))
                for what, k in inside.items():
                    self.ins.append((t, p, k, None, what))
        self.sections = sections
        # reads see the last write before them
        slots = {}
        for cell, ws in writes.items():
            by = {}
            for t, p, k, v in ws:
                by.setdefault((t, k), []).append((p, v))
            slots[cell] = {
                tk: z3.Or([self.ex(tk[0], p, tk[1]) for p, v in pv]) for tk, pv in by.items()}
        for t in range(self.nt):
            for p, r in enumerate(self.paths[t]):
                for k, e in enumerate(r.events):
                    if e[0] not in ('r', 'rw'):
                        continue
                    mine = (t, k)
                    cell = e[1]
                    sl = slots.get(cell, {})
                    before = {tk: z3.And(on, self.lt(tk, mine)) for tk, on in sl.items()
                              if tk != mine}
                    srcs = []
                    if e[2] == self.initial(cell):
                        srcs.append(z3.And([z3.Not(b) for b in before.values()]))
                    for tk in before:
                        vs = [self.ex(tk[0], wp, tk[1]) for wt, wp, wk, v in writes[cell]
                              if (wt, wk) == tk and v == e[2]]
                        if vs:
                            srcs.append(z3.And([z3.Or(vs), self.lt(tk, mine)] + [
                                z3.Not(z3.And(before[o], self.lt(tk, o)))
                                for o in before if o != tk]))
                    s.add(z3.Implies(self.ex(t, p, k), z3.Or(srcs)))
        # locks
        for l, secs in sections.items():
            for i, a in enumerate(secs):
                for b in secs[i + 1:]:
                    if a[0] == b[0]:
                        continue
                    s.add(z3.Implies(z3.And(self.ex(*a[:3]), self.ex(*b[:3])), z3.Or(
                        self.released_before(a, (b[0], b[2])),
                        self.released_before(b, (a[0], a[2])))))
        for t in range(self.nt):
            for p, r in enumerate(self.paths[t]):
                for k, e in enumerate(r.events):
                    if e[0] == 'busy':
                        # held by another thread then
                        s.add(z3.Implies(self.ex(t, p, k), z3.Or([
                            self.held_at(sec, (t, k))
                            for sec in sections.get(e[1], []) if sec[0] != t])))
                    elif e[0] == 'acq' and k == len(r.events) - 1 and self.own_open(t, p, k):
                        # waits for itself
                        s.add(z3.Not(self.ex(t, p, k)))

    def own_open(self, t, p, k):
        ev = self.paths[t][p].events
        key = ev[k][1]
        n = sum(1 for e in ev[:k] if e == ('acq', key)) - sum(1 for e in ev[:k] if e == ('rel', key))
        return n > 0

    def initial(self, cell):
        return S.initial.get(cell, token(ABSENT))

    def released_before(self, sec, c):
        if sec[3] is None:
            return self.z3.BoolVal(False)
        return self.z3.And(self.ex(sec[0], sec[1], sec[3]), self.lt((sec[0], sec[3]), c))

    def held_at(self, sec, c):
        z3 = self.z3
        return z3.And(self.ex(*sec[:3]), self.lt((sec[0], sec[2]), c),
                      z3.Not(self.released_before(sec, c)))

    def ask(self, *cond):
        z3 = self.z3
        t0 = time.time()
        self.solver.push()
        self.solver.add(*cond)
        r = self.solver.check()
        self.time += time.time() - t0
        self.queries += 1
        m = None
        if r == z3.sat:
            self.sat += 1
            m = self.solver.model()
        elif r == z3.unsat:
            self.unsat += 1
        else:
            self.unknown += 1
        self.solver.pop()
        if m is None:
            return None if r == z3.unsat else False
        return self.schedule(m)

    def schedule(self, m):
        """Events in order: (thread, event)."""
        ev = lambda x: m.eval(x, model_completion=True).as_long()  # noqa: E731
        out = []
        for t in range(self.nt):
            r = self.paths[t][ev(self.sel[t])]
            k, pending = 0, 0
            last = -1
            for e in r.full:
                if e[0] == 'pick':
                    # as early as can be
                    pending += 1
                    out.append((last, t, pending, e))
                    continue
                if k >= ev(self.upto[t]):
                    break
                last = ev(self.clock[t][k])
                out.append((last, t, 0, e))
                pending = 0
                k += 1
        out.sort(key=lambda x: x[:3])
        return [(t, e) for c, t, n, e in out]

    # -- questions --------------------------------------------------------
    def overlap(self, same=True):
        """Two threads inside at once (of the same tree)."""
        z3 = self.z3
        alts = []
        for i, a in enumerate(self.ins):
            for b in self.ins[i + 1:]:
                if a[0] == b[0] or a[4] != b[4]:
                    continue
                alts.append(z3.And(
                    self.ex(*a[:3]), self.ex(*b[:3]),
                    z3.Not(self.released_before(a, (b[0], b[2]))),
                    z3.Not(self.released_before(b, (a[0], a[2])))))
        return self.ask(z3.Or(alts)) if alts else None

    def blocked(self):  # noqa: C901
        """One thread waits for a lock that another one, which is inside of
        another tree, holds."""
        z3 = self.z3
        alts = []
        for l, secs in self.sections.items():
            for t in range(self.nt):
                for p, r in enumerate(self.paths[t]):
                    for k, e in enumerate(r.events):
                        if e != ('acq', l):
                            continue
                        for sec in secs:
                            if sec[0] == t:
                                continue
                            for a in self.ins:
                                if a[:2] != sec[:2]:
                                    continue
                                # all events up to k done, next is the acquire
                                if a[4] in {i[4] for i in self.ins if i[0] == t}:
                                    continue
                                alts.append(z3.And(
                                    self.sel[t] == p, self.upto[t] == k,
                                    self.ex(*sec[:3]), self.ex(*a[:3]),
                                    self.upto[a[0]] == a[2] + 1,
                                    self.upto[sec[0]] > sec[2] if sec[3] is None else
                                    z3.And(self.upto[sec[0]] > sec[2], self.upto[sec[0]] <= sec[3])))
        return self.ask(z3.Or(alts)) if alts else None

    def complete(self, *cond):
        """Every thread ends normally."""
        z3 = self.z3
        c = []
        for t in range(self.nt):
            c.append(z3.Or([z3.And(self.sel[t] == p, self.upto[t] == len(r.events))
                            for p, r in enumerate(self.paths[t]) if r.error is None
                            and not (r.events and r.events[-1][0] == 'acq')]))
        return self.ask(*(c + list(cond)))

    def stuck(self):
        """Some thread waits for a lock, and all others have ended or wait."""
        z3 = self.z3
        waits = []
        done = []
        for t in range(self.nt):
            w, d = [], []
            for p, r in enumerate(self.paths[t]):
                d.append(z3.And(self.sel[t] == p, self.upto[t] == len(r.events)))
                for k, e in enumerate(r.events):
                    if e[0] != 'acq':
                        continue
                    held = [z3.And(self.ex(*sec[:3]), z3.Not(
                        z3.BoolVal(False) if sec[3] is None else self.ex(sec[0], sec[1], sec[3])))
                        for sec in self.sections.get(e[1], []) if sec[0] != t]
                    if self.own_open(t, p, k):
                        held.append(z3.BoolVal(True))
                    w.append(z3.And(self.sel[t] == p, self.upto[t] == k, z3.Or(held)))
            waits.append(z3.Or(w))
            done.append(z3.Or(d))
        return self.ask(z3.Or(waits), z3.And([z3.Or(a, b) for a, b in zip(waits, done)]))

    def errors(self):
        """A thread ends with an exception."""
        z3 = self.z3
        alts = [z3.And(self.sel[t] == p, self.upto[t] == len(r.events))
                for t in range(self.nt) for p, r in enumerate(self.paths[t]) if r.error]
        return self.ask(z3.Or(alts)) if alts else None


# -- replay with real threads -----------------------------------------------------------

class Gate(object):
    """Real threads take the steps of a schedule in its order."""

    def __init__(self, schedule, timeout=4):
        self.cv = threading.Condition(REAL_LOCK())
        self.schedule = schedule
        self.pos = 0
        self.next = {}
        self.events = {}
        for i, (t, e) in enumerate(schedule):
            self.events.setdefault(t, []).append((i, e))
        self.end = time.time() + timeout
        self.failed = None
        self.open = False     # past the schedule
        self.hold = set()     # threads that stay where the schedule leaves them
        self.blocked = set()
        self.depth = {}

    def turn(self, key):
        """Waits for the turn of this step; its index."""
        t = S.tls.tid
        n = self.next.get(t, 0)
        evs = self.events.get(t, [])
        if n >= len(evs):
            # stops here until the end of the schedule
            with self.cv:
                while t in self.hold or not self.open and self.failed is None:
                    left = self.end - time.time()
                    if left <= 0:
                        raise Diverged()
                    self.cv.wait(left)
            return None
        i, e = evs[n]
        if (e[0], e[1]) != key:
            self.fail('thread %s: expected %r, did %r' % (t, e[:2], key))
        with self.cv:
            while self.pos != i:
                if self.failed:
                    raise Diverged()
                left = self.end - time.time()
                if left <= 0:
                    self.failed = 'timeout'
                    raise Diverged()
                self.cv.wait(left)
        return (i, e)

    def fail(self, why):
        with self.cv:
            self.failed = self.failed or why
            self.cv.notify_all()
        raise Diverged()

    def done(self, t):
        with self.cv:
            self.next[t] = self.next.get(t, 0) + 1
            self.pos += 1
            if self.pos >= len(self.schedule):
                self.open = True
            self.cv.notify_all()

    def at(self, key, do, check=False):
        if key[0] == 'rel' and key[1][0] == 'rlock' and self.nested(key):
            return do()
        got = self.turn(key)
        r = do()
        if got is not None:
            e = got[1]
            if check and e[0] == 'r' and token(r) != e[2]:
                self.fail('read %r, expected %r' % (token(r), e[2]))
            self.done(S.tls.tid)
        return r

    def picked(self, label):
        got = self.turn(('pick', label))
        if got is None:
            return 0
        self.done(S.tls.tid)
        return got[1][2]

    def nested(self, key):
        d = self.depth.setdefault((S.tls.tid, key[1]), 0)
        if key[0] == 'acq':
            self.depth[(S.tls.tid, key[1])] = d + 1
            return d > 0
        self.depth[(S.tls.tid, key[1])] = d - 1
        return d != 1

    def acquire(self, lock, blocking, timeout):
        t = S.tls.tid
        if lock.reentrant and self.nested(('acq', lock.key)):
            return lock.real.acquire(blocking, timeout)
        if not blocking or timeout >= 0:
            n = self.next.get(t, 0)
            evs = self.events.get(t, [])
            kind = evs[n][1][0] if n < len(evs) else 'acq'
            got = self.turn((kind, lock.key))
            r = lock.real.acquire(False)
            if got is not None:
                if r != (kind == 'acq'):
                    self.fail('lock')
                self.done(t)
            if not r and lock.reentrant:
                self.depth[(t, lock.key)] -= 1
            return r
        got = self.turn(('acq', lock.key))
        if not lock.real.acquire(True, 2):
            if got is None:
                self.blocked.add(t)
                raise Diverged()
            self.fail('lock is not free')
        if got is not None:
            self.done(t)
        return True


def replay(api, bodies, schedule, contested, hold=(), timeout=6):
    """Runs the bodies in real threads; returns (followed, why, seen)."""
    # the trees are built anew, objects of threads are not those of the record
    for k in [k for k in S.reg if k[1] != 'main']:
        del S.reg[k]
    S.count = {k: v for k, v in S.count.items() if k == 'main'}
    S.contested = contested
    S.gate = gate = Gate(schedule, timeout)
    gate.hold = set(hold)
    S.mode = 'gate'
    S.tls.tid = 'main'
    errors = {}
    api.inside, api.seen = [], []

    def run(t, body):
        S.tls.tid = t
        try:
            body()
        except Diverged:
            pass
        except Exception as e:
            errors[t] = '%s: %s' % (type(e).__name__, e)
    ths = [threading.Thread(target=run, args=(t, b), daemon=True, name=t) for t, b in enumerate(bodies)]
    for t in ths:
        t.start()
    with gate.cv:
        while not gate.open and gate.failed is None and schedule:
            left = gate.end - time.time()
            if left <= 0:
                gate.failed = 'timeout'
            else:
                gate.cv.wait(left)
    inside = list(api.inside)
    for t in ths:
        t.join(.05 if gate.failed else 3 if t.name not in hold else 0)
    return gate, inside, errors, ths


def build(prop, sc):
    mod = importlib.import_module('checks.%s' % prop.lower())
    api = Api()
    import node.base  # noqa: F401
    import node.behaviors  # noqa: F401
    api.locking = load_locking()
    spec = getattr(mod, sc['fn'])(api, **sc.get('kw', {}))
    return api, spec


class Initial(dict):
    """Tokens of cells before the threads run."""


def collect_initial(paths):
    """Initial values of all cells that occur."""
    S.initial = Initial()
    objs = {key: o for o, key, run in S.objs.values()}
    for o in S.dicts:
        objs[o.key] = o
    for runs in paths:
        for r in runs:
            for e in r.events:
                if e[0] in ('r', 'w', 'rw'):
                    ok, name = e[1]
                    o = objs.get(ok)
                    v = ABSENT
                    if isinstance(o, SharedDict):
                        for k in list(o.real.keys()):
                            if token(k) == name:
                                v = o.real[k]
                    elif o is not None and ok[1] == 'main':
                        v = real_dict(o).get(name, ABSENT)
                    S.initial[e[1]] = token(v)


QUESTIONS = dict(
    overlap=('two threads hold the lock of a tree', lambda m: m.overlap()),
    blocked=('the lock of another tree blocks', lambda m: m.blocked()),
    stuck=('threads wait for a lock for ever', lambda m: m.stuck()),
    errors=('a thread fails', lambda m: m.errors()),
)


def jsonable(schedule):
    return json.loads(json.dumps(schedule))


def untuple(x):
    return tuple(untuple(i) for i in x) if isinstance(x, list) else x


def confirm(prop, sc, question, schedule, contested, tmp):
    """Replays a model in a fresh process."""
    d = dict(property=prop, scenario=sc['name'], sc=sc, native_main='native_main',
             question=question, label=QUESTIONS[question][0], schedule=schedule,
             contested=contested,
             how='/opt/venv/bin/python /verif/vsym/replay.py <this file>')
    f = os.path.join(tmp, 'conc-%d.json' % os.getpid())
    with open(f, 'w') as fh:
        json.dump(d, fh)
    for i in range(3):
        try:
            r = subprocess.run([sys.executable, '-W', 'ignore', os.path.join(HERE, 'conc.py'),
                                '--replay', f], stdout=subprocess.PIPE,
                               stderr=subprocess.PIPE, timeout=40)
        except subprocess.TimeoutExpired:
            continue
        d['output'] = r.stdout.decode(errors='replace')
        if r.returncode == 1 and 'failed  ' in d['output']:
            return d
    return None


def run_replay(d):
    """Exit status 1 if the violation shows."""
    schedule = [(t, untuple(e)) for t, e in d['schedule']]
    contested = {untuple(c) for c in d['contested']}
    api, spec = build(d['property'], d['sc'])
    q = d['question']
    hold = {t for t, e in schedule if e[0] == 'in'} if q == 'blocked' else ()
    gate, inside, errors, ths = replay(api, spec['threads'], schedule, contested, hold)
    print('scenario  %s' % d['scenario'])
    print('schedule  %s' % '; '.join('thread %s: %s' % (t, ' '.join(map(str, e[:2])))
                                    for t, e in schedule))
    why = None
    if q == 'overlap':
        for s in api.seen:
            for what in {w for t, w in s}:
                if len({t for t, w in s if w == what}) > 1:
                    why = 'threads %s are inside at once' % sorted({t for t, w in s if w == what})
    elif gate.failed:
        why = None
    elif q == 'errors':
        why = errors and 'thread ends with %s' % errors
    else:
        # nobody moves any more although the schedule is over
        why = gate.blocked and 'threads %s wait' % sorted(gate.blocked)
    print('status    %s %s' % ('followed' if not gate.failed else 'diverged', gate.failed or ''))
    if why:
        print('failed    %s' % d['label'])
        print('detail    %s' % why)
    sys.stdout.flush()
    os._exit(1 if why else 0)


def worker():
    prop, sc, budget, outf, tmp = sys.argv[1], json.loads(sys.argv[2]), \
        float(sys.argv[3]), sys.argv[4], sys.argv[5]
    t0 = time.time()
    funcs = set()

    def prof(frame, event, arg):
        if event == 'call' and frame.f_code.co_filename.startswith(SRC):
            funcs.add('%s:%s' % (os.path.relpath(frame.f_code.co_filename, SRC),
                                 frame.f_code.co_qualname))
    api, spec = build(prop, sc)
    bodies = spec['threads']
    sys.setprofile(prof)
    paths = paths_of(bodies)
    sys.setprofile(None)
    collect_initial(paths)
    npaths = [len(r) for r in paths]
    paths = merged(paths)
    contested = sorted({e[1] for runs in paths for r in runs for e in r.events
                        if e[0] in ('r', 'rw')}, key=repr)
    m = Model(paths)
    violations, artifacts, reached, checks = [], [], {}, 0
    if m.complete() not in (None, False):
        reached['all threads can end'] = 1
    for q in spec['questions']:
        checks += 1
        sched = QUESTIONS[q][1](m)
        if sched in (None, False):
            continue
        d = confirm(prop, sc, q, jsonable(sched), jsonable(contested), tmp)
        if d:
            violations.append(d)
            break
        else:
            artifacts.append(dict(inputs={}, sym=QUESTIONS[q][0], detail=jsonable(sched)))
    # interleavings the formula admits are those of real threads
    samples, ok, bad, divs = [], 0, 0, []
    if not violations:
        z3 = m.z3
        wanted = [()]
        for a in range(m.nt):
            for b in range(m.nt):
                if a != b:
                    wanted.append((m.clock[a][0] < m.clock[b][0],))
        for t in range(m.nt):
            for p in range(len(paths[t])):
                wanted.append((m.sel[t] == p,))
        for w in wanted[:spec.get('validate', 8)]:
            sched = m.complete(*w)
            if sched in (None, False):
                continue
            sched = jsonable(sched)
            f = os.path.join(tmp, 'val-%d.json' % os.getpid())
            with open(f, 'w') as fh:
                json.dump(dict(property=prop, scenario=sc['name'], sc=sc, question='overlap',
                               label='', schedule=sched, contested=jsonable(contested)), fh)
            r = subprocess.run([sys.executable, '-W', 'ignore', os.path.join(HERE, 'conc.py'),
                                '--replay', f], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL,
                               timeout=40)
            out = r.stdout.decode(errors='replace')
            if r.returncode == 0 and 'status    followed' in out:
                ok += 1
            else:
                bad += 1
                divs.append(out[-600:])
            if len(samples) < 2:
                samples.append(dict(schedule=[['thread %d' % t] + [str(x) for x in e] for t, e in sched]))
    out = dict(
        scenario=sc['name'], paths=sum(npaths),
        completed=sum(npaths) if 'all threads can end' in reached else 0, aborted=0,
        branches=0, queries=m.queries, sat=m.sat, unsat=m.unsat, unknown=m.unknown,
        solver_s=round(m.time, 3), wall=round(time.time() - t0, 2), diverged=0,
        native_ok=ok, native_bad=bad, conc_skipped=0, native_hash=0, concretized=0,
        checks=checks, exhausted=True, pending=0, reached=reached,
        merged_paths=[len(r) for r in paths], samples=samples, divergences=divs, known=[], artifacts=artifacts,
        violations=violations, functions=sorted(funcs))
    with open(outf, 'w') as f:
        json.dump(out, f, default=str)
    os._exit(0)


if __name__ == '__main__':
    sys.modules['vsym.conc'] = sys.modules['__main__']
    __package__ = 'vsym'
    import vsym  # noqa: E402,F401
    if sys.argv[1] == '--replay':
        with open(sys.argv[2]) as _f:
            run_replay(json.load(_f))
    worker()
