from node.base import AttributedNode
from node.base import BaseNode
from node.base import Node
from node.base import OrderedNode
from node.behaviors.attributes import NodeAttributes
from node.utils import UNSET
from .common import OPS
from .common import MUT
from .common import Ref
from .common import agree
from .common import apply_op
from .common import new_keys

CLASSES = dict(BaseNode=BaseNode, OrderedNode=OrderedNode, Node=Node,
               AttributedNode=AttributedNode, NodeAttributes=NodeAttributes)
BOUNDS = dict(
    quick='5 node classes; every single operation from every state of 0..4 children with '
          'arbitrary distinct string keys; all pairs of mutations from 0..1 children; all triples of '
          'set/del/setdefault/popitem from the empty node',
    thorough='every single operation from 0..6 children; all pairs from 0..3; all triples of '
             'mutations from 1 child; all quadruples of set/del/setdefault/popitem')


class Empty(object):
    """A falsy value."""

    def __bool__(self):
        return False


def values(env, cls, simple):
    if cls is not NodeAttributes:
        return lambda i: cls(name='x')
    if simple:
        return lambda i: ('v', i)
    pool = [None, False, UNSET, Empty(), BaseNode(), 'text']
    # pre-state values are of one kind, the value of the operation of another
    two = [Empty(), None]
    return lambda i: pool[env.choice('val', len(pool))] if i[0] == 'p' else \
        two[env.choice('valop', 2)]


def run(env, cls, n, ops, oplist=None, simple=False):
    cls = CLASSES[cls]
    kind = 'str' if cls in (BaseNode, OrderedNode, NodeAttributes) else 'keyfree'
    node = cls(name='root') if cls is not NodeAttributes else \
        NodeAttributes('attrs', AttributedNode('ctx'))
    val = values(env, cls, simple)
    ref = Ref()
    for i, k in enumerate(new_keys(env, n, kind=kind)):
        v = val('p%d' % i)
        node[k] = v
        ref.set(k, v)
    agree(env, node, ref, 'pre-state', full=False)
    probe = getattr(env, kind)('probe')
    oplist = oplist or OPS
    for j in range(ops):
        op = oplist[env.choice('op%d' % j, len(oplist))]
        key = getattr(env, kind)('a%d' % j)
        two = op.startswith('update')
        key2 = getattr(env, kind)('b%d' % j) if two else None
        v = val('o%d' % j) if op not in ('del', 'get', 'in', 'has_key', 'pop', 'popd', 'popitem', 'clear') else None
        v2 = None
        if two:
            v2 = val('q%d' % j)
        if op == 'popd' or op == 'getd':
            dflt = [None, False, 0, Empty(), object()]
            v2 = v = dflt[env.choice('dflt%d' % j, len(dflt))]
        apply_op(env, op, node, ref, key, v, 'op%d' % j, key2, v2)
        env.obs(list(node.keys()))
        agree(env, node, ref, 'after op%d %s' % (j, op), full=(j == ops - 1))
    agree(env, node, ref, 'end', probe=probe)
    env.reach('end')


def scenarios(tier):
    out = []

    def sc(c, n, ops, **kw):
        w = kw.pop('weight', 1)
        out.append(dict(name='%s-pre%d-op%d' % (c, n, ops), fn='run', weight=w,
                        kw=dict(cls=c, n=n, ops=ops, **kw), must_reach=['end'],
                        budget=120 if tier == 'quick' else 900))
    for c in CLASSES:
        for n in range(0, 5 if tier == 'quick' else 7):
            sc(c, n, 1, simple=n > 2, weight=n)
        if tier == 'quick':
            sc(c, 1, 2, oplist=MUT, simple=True, weight=8)
            sc(c, 0, 3, oplist=('set', 'del', 'setdefault', 'popitem'), simple=True, weight=4)
        else:
            for n in range(0, 4):
                sc(c, n, 2, simple=True, weight=9)
            sc(c, 1, 3, oplist=MUT, simple=True, weight=20)
            sc(c, 0, 4, oplist=('set', 'del', 'setdefault', 'popitem'), simple=True, weight=20)
    return out
