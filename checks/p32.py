"""P32: a reversed mapping view is always the live inverse of its mapping.

After every change of the mapping all reads of the view are compared with the
pairs the mapping received; writes to the mapping by the view are recorded.
"""
import collections
from kit import *
from node.utils import ReverseMapping
from zope.interface.common.mapping import IEnumerableMapping

ANCHORS = ['src/node/utils.py']
RULE = ('a case is one mapping with 1-3 reversed views and 10-50 changes with reads of the views in between; non-trivial: a '
        'value looked up successfully')
QUICK, THOROUGH = 5000, 150000
MIN = {'compare': 50000, 'lookup': 200000, 'unknown': 100000, 'duplicates': 20000, 'falsy': 50000, 'unhashable': 20000,
       'falsy-key': 20000, 'change': 50000, 'own-equality': 8000}
ASSUMPTIONS = ['values are equal to themselves']


class Eq(object):
    """equality by value, not hashable"""

    def __init__(self, n):
        self.n = n

    def __eq__(self, other):
        return isinstance(other, Eq) and other.n == self.n

    def __ne__(self, other):
        return not self == other

    __hash__ = None

    def __bool__(self):
        return False

    def __repr__(self):
        return 'Eq(%d)' % self.n


class Guard(dict):
    """records changes"""
    changes = 0

    def __setitem__(self, key, val):
        Guard.changes += 1
        dict.__setitem__(self, key, val)

    def __delitem__(self, key):
        Guard.changes += 1
        dict.__delitem__(self, key)


class Default(collections.defaultdict):

    def __init__(self):
        collections.defaultdict.__init__(self, list)


MAPS = [dict, odict, Guard, Default, collections.OrderedDict, VBaseNode, VOrderedNode, PlainDictNode, PlainOdictNode,
        PureOdictMapping, UserMapping, UserNode, CachedNode, NodeAttributes, UnaliasedNode]
KEYS = ['a', 'b', 'c', 'd', '', 0, 1, None, ('t',), 'ä', 2.5, frozenset()]
VALUES = [None, 0, '', False, 1, 'v', 'ü', b'\xff', (), [], {}, 1.5, [1, [2]], {'k': 'v'}, UNSET, -7, 'None', True, set(), 1.0,
          0.0, (1, 2), [()], 'a', 'b', object, Eq, {1: 2}, b'', frozenset(), complex(0, 1), range(3)]
W = {'set': 20, 'del': 6, 'clear': 1, 'update': 3, 'pop': 2, 'look': 14, 'new': 2, 'mutate': 3, 'node': 2, 'same': 4,
     'replace': 6}


def gen(rng, i, tier):
    return {'cfg': {'map': i % len(MAPS), 'few': rng.random() < .4, 'style': style(rng),
                    'bury': rng.randrange(R)}, 'ops': gen_ops(rng, W, 10, 50)}


def make_value(r):
    if r % 9 == 0:
        return Eq(r % 4)
    import copy
    v = VALUES[r % len(VALUES)]
    return copy.deepcopy(v) if isinstance(v, (list, dict, set)) else v


def run(case, mon):
    cls = MAPS[case['cfg']['map']]
    m = cls()
    ref = odict()
    views = [ReverseMapping(m)]
    keys = styled(case['cfg'].get('style'), KEYS[:5] if case['cfg']['few'] else KEYS)
    if bury(m, case['cfg'].get('bury', 0)):
        mon.ev('inner')

    def look(v, val):
        """all single lookups of one value"""
        found = [k for k, x in ref.items() if x == val]
        mon.ev('falsy', not val)
        mon.ev('unhashable', isinstance(val, (list, dict, set, Eq)))
        mon.ev('own-equality', isinstance(val, Eq))
        if found:
            mon.ev('lookup')
            mon.ev('duplicates', len(found) > 1)
            mon.ev('falsy-key', not found[0])
            mon.nontrivial.add(hash((repr(val), repr(found), len(ref))))
            got = ok(mon, 'lookup', 'item', v.__getitem__, val)
            mon.true(same(got, found[0]), 'lookup', 'key of', val, 'is', got, 'expected', found[0])
            got = ok(mon, 'lookup', 'get', v.get, val, mon)
            mon.true(same(got, found[0]), 'lookup', 'get of', val, 'is', got, 'expected', found[0])
            got = ok(mon, 'lookup', 'get', v.get, val)
            mon.true(same(got, found[0]), 'lookup', 'get of', val, 'is', got, 'expected', found[0])
        else:
            mon.ev('unknown')
            raises(mon, KeyError, 'unknown', 'item', v.__getitem__, val)
            mon.is_(ok(mon, 'unknown', 'get', v.get, val), None, 'unknown', 'get')
            mon.is_(ok(mon, 'unknown', 'get', v.get, val, mon), mon, 'unknown', 'get with default')
            mon.is_(ok(mon, 'unknown', 'get', v.get, val, default=mon), mon, 'unknown', 'get with default')
        mon.eq(ok(mon, 'lookup', 'contains', lambda: val in v), bool(found), 'lookup', 'contains', val)

    def compare():
        mon.ev('compare')
        before, changes = list(m.items()), Guard.changes
        exp = list(ref.items())
        for v in views:
            got = [take(v), take(v.keys())]
            for g in got:
                mon.true(len(g) == len(exp) and all(x is y[1] for x, y in zip(g, exp)), 'views', 'values', g, 'expected', exp)
            g = take(v.values())
            mon.true(len(g) == len(exp) and all(same(x, y[0]) for x, y in zip(g, exp)), 'views', 'keys', g, 'expected', exp)
            g = take(v.items())
            mon.true(len(g) == len(exp) and all(x[0] is y[1] and same(x[1], y[0]) for x, y in zip(g, exp)), 'views',
                     'pairs', g, 'expected', exp)
            mon.eq(len(v), len(exp), 'views', 'length')
            for k, x in exp:
                look(v, x)
        after = list(m.items())
        mon.true(len(before) == len(after) and all(a[0] == b[0] and a[1] is b[1] for a, b in zip(before, after)),
                 'unchanged', 'mapping after reading', after, 'was', before)
        mon.eq(Guard.changes, changes, 'unchanged', 'number of changes')
        mon.eq(list(m.keys()), list(ref.keys()), 'unchanged', 'keys of the mapping')

    mon.true(IEnumerableMapping.providedBy(views[0]), 'views', 'IEnumerableMapping')
    for op, a, b, c, d in case['ops']:
        k = pick(keys, a)
        mon.note(op, k)
        if op in ('set', 'replace', 'same', 'node'):
            if op == 'replace' and ref:
                k = pick(list(ref), a)
            v = make_value(b)
            if op == 'same' and ref:
                v = pick(list(ref.values()), b)
                if INode.providedBy(v):
                    continue
            if op == 'node':
                v = VOrderedNode()
            mon.ev('change')
            m[k] = v
            ref[k] = v
        elif op in ('del', 'pop') and ref:
            k = pick(list(ref), a)
            mon.ev('change')
            if op == 'del':
                del m[k]
            else:
                m.pop(k)
            del ref[k]
        elif op == 'clear':
            mon.ev('change')
            m.clear()
            ref.clear()
        elif op == 'update':
            mon.ev('change')
            pairs = [(pick(keys, a + j), make_value(b + j)) for j in range(3)]
            m.update(pairs)
            for x, y in pairs:
                ref[x] = y
        elif op == 'mutate':
            # values change in place
            lists = [x for x in ref.values() if isinstance(x, list)]
            if lists:
                mon.ev('change')
                pick(lists, b).append(c % 3)
        elif op == 'look':
            v = pick(views, a)
            look(v, make_value(b))
            look(v, make_value(c))
            look(v, VOrderedNode())
            look(v, k)
        elif op == 'new' and len(views) < 3:
            views.append(ReverseMapping(m))
        if d % 3 == 0:
            compare()
        mon.state((op, case['cfg']['map'], len(ref), len(views)))
    compare()


def fixed(mon):

    def twice():
        # a view of a view is the mapping again, for different values
        m = odict([('a', 1), ('b', ''), ('c', (2,))])
        v = ReverseMapping(ReverseMapping(m))
        mon.eq(list(v), ['a', 'b', 'c'], 'twice', 'keys')
        mon.eq([v[k] for k in m], [1, '', (2,)], 'twice', 'values')
        mon.eq(v.items(), list(m.items()), 'twice', 'pairs')
        m['d'] = None
        mon.eq([v[k] for k in m], [1, '', (2,), None], 'twice', 'values')
        raises(mon, KeyError, 'twice', 'missing', v.__getitem__, 'e')
    yield 'twice', twice

    def large():
        m = odict(('k%d' % i, [i // 2]) for i in range(600))
        v = ReverseMapping(m)
        for i in range(0, 600, 7):
            mon.eq(v[[i // 2]], 'k%d' % (i // 2 * 2), 'large', 'first key')
        del m['k0']
        mon.eq(v[[0]], 'k1', 'large', 'key after deletion of the first')
        m['k0'] = [0]
        mon.eq(v[[0]], 'k1', 'large', 'first key')
        mon.eq(len(v), 600, 'large', 'length')
    yield 'large', large
