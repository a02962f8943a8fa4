"""Shared by the harnesses: reference models and helpers. Runs on symbolic
and on plain values, so it compares keys with == only."""
from node.utils import UNSET

NOVAL = object()


class Falsy(object):
    """False in a boolean context."""

    def __bool__(self):
        return False

    __nonzero__ = __bool__


class Equal(object):
    """Equal to everything."""

    def __eq__(self, other):
        return True

    def __ne__(self, other):
        return False

    __hash__ = object.__hash__


# values which are easily taken for another or for none
ODD = (None, UNSET, False, 0, '', (), Falsy(), Equal(), object())


class FalsyNode(object):
    """Mixin for nodes false in a boolean context."""

    def __bool__(self):
        return False

    __nonzero__ = __bool__


class EqualNode(object):
    """Mixin for nodes equal to everything."""

    def __eq__(self, other):
        return True

    def __ne__(self, other):
        return False

    __hash__ = object.__hash__


class Ref(object):
    """Reference: insertion ordered mapping as a list of [key, value]."""

    def __init__(self, pairs=()):
        self.e = [[k, v] for k, v in pairs]

    def find(self, key):
        for e in self.e:
            if e[0] is key or e[0] == key:
                return e
        return None

    def has(self, key):
        return self.find(key) is not None

    def get(self, key, default=None):
        e = self.find(key)
        return default if e is None else e[1]

    def set(self, key, val):
        e = self.find(key)
        if e is not None:
            e[1] = val
        else:
            self.e.append([key, val])

    def delete(self, key):
        e = self.find(key)
        self.e = [x for x in self.e if x is not e]

    def keys(self):
        return [e[0] for e in self.e]

    def values(self):
        return [e[1] for e in self.e]

    def items(self):
        return [(e[0], e[1]) for e in self.e]

    def __len__(self):
        return len(self.e)

    def copy(self):
        return Ref(self.items())


def agree(env, m, ref, tag, probe=None, full=True):
    """Every listing of mapping m equals the reference."""
    exp_k = ref.keys()
    exp_v = ref.values()
    env.eqlist(list(m), exp_k, tag + ': iteration')
    if full:
        env.eqlist(m.keys(), exp_k, tag + ': keys')
        env.samelist(m.values(), exp_v, tag + ': values')
        it = list(m.items())
        env.eqlist([i[0] for i in it], exp_k, tag + ': items keys')
        env.samelist([i[1] for i in it], exp_v, tag + ': items values')
        env.eqlist(m.iterkeys(), exp_k, tag + ': iterkeys')
        env.samelist(m.itervalues(), exp_v, tag + ': itervalues')
        it = list(m.iteritems())
        env.eqlist([i[0] for i in it], exp_k, tag + ': iteritems keys')
        env.samelist([i[1] for i in it], exp_v, tag + ': iteritems values')
        env.eq(len(m), len(exp_k), tag + ': len')
        for k, v in zip(exp_k, exp_v):
            env.same(m[k], v, tag + ': item')
            env.check((k in m) is True, tag + ': in')
    if probe is not None:
        has = ref.has(probe)
        env.check((probe in m) == has, tag + ': in (probe)')
        env.check(m.has_key(probe) == has, tag + ': has_key (probe)')
        e, r = env.raises(lambda: m[probe], KeyError)
        env.check((e is None) == has, tag + ': KeyError exactly when missing')
        if has:
            env.same(r, ref.get(probe), tag + ': item (probe)')
        d = object()
        env.same(m.get(probe, d), ref.get(probe, d), tag + ': get (probe)')


OPS = ('set', 'del', 'get', 'getd', 'in', 'setdefault', 'pop', 'popd',
       'popitem', 'update_map', 'update_pairs', 'update_kw', 'clear',
       'has_key')
MUT = ('set', 'del', 'setdefault', 'pop', 'popd', 'popitem', 'update_pairs',
       'clear')


def apply_op(env, op, m, ref, key, val, tag, key2=None, val2=None):
    """One operation on mapping m and on the reference; compares results.
    Returns the values that left the mapping."""
    tag = '%s %s' % (tag, op)
    if op == 'set':
        m[key] = val
        ref.set(key, val)
    elif op == 'del':
        e, r = env.raises(lambda: m.__delitem__(key), KeyError)
        env.check((e is None) == ref.has(key), tag + ': KeyError exactly when missing')
        ref.delete(key)
    elif op == 'get':
        env.same(m.get(key), ref.get(key), tag)
    elif op == 'getd':
        env.same(m.get(key, val), ref.get(key, val), tag)
    elif op == 'in':
        env.check((key in m) == ref.has(key), tag)
    elif op == 'has_key':
        env.check(bool(m.has_key(key)) == ref.has(key), tag)
    elif op == 'setdefault':
        r = m.setdefault(key, val)
        if not ref.has(key):
            ref.set(key, val)
        env.same(r, ref.get(key), tag + ': result')
    elif op == 'pop':
        has = ref.has(key)
        e, r = env.raises(lambda: m.pop(key), KeyError)
        env.check((e is None) == has, tag + ': KeyError exactly when missing')
        if has:
            env.same(r, ref.get(key), tag + ': result')
        ref.delete(key)
    elif op == 'popd':
        exp = ref.get(key, val2)
        r = m.pop(key, val2)
        env.same(r, exp, tag + ': result')
        ref.delete(key)
    elif op == 'popitem':
        e, r = env.raises(m.popitem, KeyError)
        env.check((e is None) == (len(ref) > 0), tag + ': KeyError exactly when empty')
        if len(ref):
            k, v = ref.items()[-1]
            env.check(r[0] == k, tag + ': key')
            env.same(r[1], v, tag + ': value')
            ref.delete(k)
    elif op in ('update_map', 'update_pairs', 'update_kw'):
        pairs = [(key, val)]
        if key2 is not None:
            pairs.append((key2, val2))
        if op == 'update_map':
            d = {}
            for k, v in pairs:
                d[k] = v
            r = m.update(d)
            pairs = list(d.items())
        elif op == 'update_pairs':
            r = m.update(pairs)
        else:
            for k, v in pairs:
                for bad in ('self', '_next', 'args', 'kw', 'data', 'other'):
                    env.assume(not (k == bad))
            d = {}
            for k, v in pairs:
                d[k] = v
            r = m.update(**d)
            pairs = list(d.items())
        env.same(r, None, tag + ': result')
        for k, v in pairs:
            ref.set(k, v)
    elif op == 'clear':
        m.clear()
        ref.e = []
    else:
        raise AssertionError(op)


def distinct(env, keys):
    for i, k in enumerate(keys):
        for j in keys[:i]:
            env.assume(not (k == j))


def new_keys(env, n, prefix='k', kind='keyfree'):
    """n pairwise distinct symbolic keys."""
    keys = [getattr(env, kind)('%s%d' % (prefix, i)) for i in range(n)]
    distinct(env, keys)
    return keys


def snapshot(node):
    """Everything listed of a node: keys, values, name, parent."""
    return (node.__name__, node.__parent__, list(node.keys()), list(node.values()))


def same_snapshot(env, a, b, tag):
    env.check(a[0] is b[0] or a[0] == b[0], tag + ': name')
    env.same(a[1], b[1], tag + ': parent')
    env.eqlist(a[2], b[2], tag + ': keys')
    env.samelist(a[3], b[3], tag + ': children')
