"""Aliasers translate keys losslessly."""
from node.behaviors.alias import AliaserChain
from node.behaviors.alias import DictAliaser
from node.behaviors.alias import PrefixAliaser
from node.behaviors.alias import PrefixSuffixAliaser
from node.behaviors.alias import SuffixAliaser
from .common import distinct

BOUNDS = dict(
    quick='prefix, suffix and combined aliasers with arbitrary prefix and suffix or none; '
          'one-to-one dictionaries (strict or not) of 0..2 arbitrary entries, also changed after '
          'first use; chains of up to 2 (3 without dictionaries) of all of these; arbitrary key and '
          'name strings',
    thorough='dictionaries of up to 4 entries; chains of up to 3, nested chains')

# A reference aliaser is a pair of functions; they give (True, result) or
# (False, None) when the input is refused.


def affix(pre, suf):
    def alias(key):
        return True, pre + key + suf

    def unalias(name):
        if not name.startswith(pre):
            return False, None
        rest = name.removeprefix(pre)
        if not rest.endswith(suf):
            return False, None
        return True, rest.removesuffix(suf)
    return alias, unalias


def mapping(pairs, strict):
    def alias(key):
        for a, k in pairs:
            if k == key:
                return True, a
        return (False, None) if strict else (True, key)

    def unalias(name):
        for a, k in pairs:
            if a == name:
                return True, k
        return (False, None) if strict else (True, name)
    return alias, unalias


def chain(refs):
    def alias(key):
        for a, u in refs:
            ok, key = a(key)
            if not ok:
                return False, None
        return True, key

    def unalias(name):
        for a, u in reversed(refs):
            ok, name = u(name)
            if not ok:
                return False, None
        return True, name
    return alias, unalias


def make(env, kind, tag):
    """(aliaser, reference, lossless) of the kind."""
    if kind in ('prefix', 'suffix'):
        p = env.pick(tag + 'none', [None, 's']) and env.str(tag + 'affix')
        if kind == 'prefix':
            return PrefixAliaser(p), affix(p or '', ''), True
        return SuffixAliaser(p), affix('', p or ''), True
    if kind == 'both':
        p = env.pick(tag + 'nonep', [None, 's']) and env.str(tag + 'pre')
        s = env.pick(tag + 'nones', [None, 's']) and env.str(tag + 'suf')
        return PrefixSuffixAliaser(p, s), affix(p or '', s or ''), True
    n, strict = kind
    names = [env.str('%sa%d' % (tag, i)) for i in range(n)]
    keys = [env.str('%sk%d' % (tag, i)) for i in range(n)]
    distinct(env, names)
    distinct(env, keys)
    pairs = list(zip(names, keys))
    how = env.choice(tag + 'how', 3)
    if how == 0:
        a = DictAliaser(pairs, strict=strict)
    else:
        # entries are added after first use
        a = DictAliaser(strict=strict)
        if how == 2:
            env.raises(lambda: a.alias(env.str('key')), KeyError)
            env.raises(lambda: a.unalias(env.str('name')), KeyError)
        for k, v in pairs:
            a[k] = v
    return a, mapping(pairs, strict), strict


def judge(env, a, ref, key, name, lossless):
    ok, exp = ref[0](key)
    e, r = env.raises(lambda: a.alias(key), KeyError)
    env.check((e is None) == ok, 'alias: KeyError exactly for keys not accepted')
    if ok:
        env.check(r == exp, 'alias')
        e, back = env.raises(lambda: a.unalias(r), KeyError)
        bok, bexp = ref[1](exp)
        env.check((e is None) == bok, 'unalias of alias accepted')
        if lossless:
            env.check(e is None and back == key, 'unalias(alias(key)) == key')
        elif bok:
            env.check(back == bexp, 'unalias of alias')
    ok, exp = ref[1](name)
    e, r = env.raises(lambda: a.unalias(name), KeyError)
    env.check((e is None) == ok, 'unalias: KeyError exactly for names not produced')
    if ok:
        env.check(r == exp, 'unalias')
        if lossless:
            e, back = env.raises(lambda: a.alias(r), KeyError)
            env.check(e is None and back == name, 'alias(unalias(name)) == name')


def run(env, kinds, nested=False):
    made = [make(env, k if isinstance(k, str) else tuple(k), 'x%d' % i)
            for i, k in enumerate(kinds)]
    key, name = env.str('key'), env.str('name')
    lossless = all(m[2] for m in made)
    if len(made) == 1:
        judge(env, made[0][0], made[0][1], key, name, lossless)
    else:
        refs = [m[1] for m in made]
        al = [m[0] for m in made]
        if nested:
            a = AliaserChain([AliaserChain(al[:2])] + al[2:])
        elif env.bool('late'):
            a = AliaserChain()
            a.chain = al
        else:
            a = AliaserChain(al)
        judge(env, a, chain(refs), key, name, lossless)
    env.reach('end')


def nonstrict(env, n):
    """A non-strict dictionary is lossless for what its entries do not touch."""
    names = [env.str('a%d' % i) for i in range(n)]
    keys = [env.str('k%d' % i) for i in range(n)]
    distinct(env, names + keys)
    a = DictAliaser(list(zip(names, keys)), strict=False)
    key = env.str('key')
    for x in names:
        env.assume(not (x == key))
    env.check(a.unalias(a.alias(key)) == key, 'unalias(alias(key)) == key')
    name = env.str('name')
    for x in keys:
        env.assume(not (x == name))
    env.check(a.alias(a.unalias(name)) == name, 'alias(unalias(name)) == name')
    env.reach('end')


def scenarios(tier):
    out = []
    q = tier == 'quick'

    def sc(*kinds, **kw):
        name = '+'.join(k if isinstance(k, str) else 'dict%d%s' % (k[0], '' if k[1] else '-lax')
                        for k in kinds)
        out.append(dict(name=name + ('-nested' if kw.get('nested') else ''), fn='run',
                        kw=dict(kinds=list(kinds), **kw), must_reach=['end'],
                        weight=len(kinds) ** 2 + 9 * kinds.count('both') + 2 * ((2, True) in kinds), budget=100 if q else 600))
    fix = ['prefix', 'suffix', 'both']
    dicts = [(n, s) for n in range(0, 3 if q else 5) for s in (True, False)]
    for k in fix + dicts:
        sc(k)
    for i in fix + [(1, True), (2, True), (1, False)]:
        for j in fix + [(1, True), (2, True), (1, False)]:
            if q and not isinstance(i, str) and not isinstance(j, str) and i != j:
                continue
            if q and i == 'both' and j in ('both', (1, False), (2, True)):
                continue
            sc(i, j)
    if q:
        sc('prefix', 'suffix', 'prefix', nested=True)
        sc('suffix', 'prefix', 'suffix')
    else:
        for i in fix + [(1, True)]:
            for j in fix[:2] + [(1, True)]:
                for k in fix[:2] + [(2, True)]:
                    sc(i, j, k)
                    sc(i, j, k, nested=True)
    for n in range(0, 3 if q else 5):
        out.append(dict(name='lax-%d' % n, fn='nonstrict', kw=dict(n=n), must_reach=['end']))
    return out
