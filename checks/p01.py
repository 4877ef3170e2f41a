"""P01: every node is a faithful mapping of the operations applied to it.

Lockstep monitor: a random history of mapping operations runs on 2 instances
of a node class; each instance has a reference list of pairs. Each result and
the full read-back through every read API is compared after every write.
"""
from collections import ChainMap, OrderedDict, UserDict, defaultdict
from types import MappingProxyType
from kit import *
from node.interfaces import IReference

ANCHORS = ['src/node/behaviors/mapping.py', 'src/node/behaviors/storage.py', 'src/node/behaviors/nodify.py',
           'src/node/base.py']
RULE = ('a case is a node class, a key alphabet and a random history of 12-60 mapping operations on two instances; '
        'non-trivial: it executed at least one operation to the end in agreement with the reference')
QUICK, THOROUGH = 3000, 60000
MIN = {'moody': 800, 'foreign-mapping': 150, 'interleaved': 500, 'op.popitem': 500, 'op.update': 500, 'missing': 1000, 'readback': 5000,
       'inner': 500, 'many-keys': 50, 'styled': 500, 'context.thread': 100, 'context.handling': 100}
ASSUMPTIONS = ['entry order of unordered node types is not compared',
               'reserved keys (__x__) are covered by P26, string keys only for node types with nodespaces']

W = {'set': 10, 'del': 4, 'get': 4, 'item': 3, 'contains': 3, 'has_key': 2, 'update': 5, 'setdefault': 4, 'pop': 5,
     'popitem': 4, 'clear': 1, 'read': 3, 'popdef': 2, 'overwrite': 3, 'iter': 2, 'badupdate': 1, 'drain': 1}


def gen(rng, i, tier):
    names = sorted(MAPPINGS)
    return {'cfg': {'cls': names[i % len(names)], 'keys': rng.choice([3, 5, 9, 21] * 4 + [70]), 'v': rng.choice([0, 1]),
                    'style': style(rng), 'mood': rng.choice((None, None, None) + MOODS), 'bury': [rng.randrange(R), rng.randrange(R)]},
            'ops': gen_ops(rng, W, 12, 60 if tier == 'quick' else 120)}


class Model(object):
    """Ordered list of (key, value)."""

    def __init__(self):
        self.d = []

    def find(self, key):
        for n, (k, v) in enumerate(self.d):
            if k == key:
                return n
        return -1

    def set(self, key, val):
        n = self.find(key)
        if n < 0:
            self.d.append((key, val))
        else:
            self.d[n] = (self.d[n][0], val)

    def delete(self, key):
        del self.d[self.find(key)]


def run(case, mon):
    cls, ordered, anykey, anyval = MAPPINGS[case['cfg']['cls']]
    if INode.implementedBy(cls):
        cls = moody(cls, case['cfg'].get('mood'))
        mon.ev('moody', bool(case['cfg'].get('mood')))
    nkeys = case['cfg']['keys']
    objs = [cls(), cls()]
    models = [Model(), Model()]
    serial = [0]
    # values are opaque: some claim to be equal to everything and false
    odd = {'__eq__': lambda self, other: True, '__ne__': lambda self, other: False, '__hash__': object.__hash__,
           '__bool__': lambda self: False, '__len__': lambda self: 0}
    deaf = type('Deaf', (), odd if case['cfg'].get('bury', [0])[0] % 3 == 1 else {})

    if INode.implementedBy(cls):
        for o, r in zip(objs, case['cfg'].get('bury', ())):
            if bury(o, r):
                mon.ev('inner')
    keys = styled(case['cfg'].get('style'), [key_for(anykey, r, nkeys) for r in range(nkeys)])
    if nkeys == 70:
        mon.ev('many-keys')
        keys = [k if n < 15 else '%s%d' % (k, n) for n, k in enumerate(keys)]
    if case['cfg'].get('style'):
        mon.ev('styled')

    def key(r):
        return keys[r % nkeys]

    def value(r):
        serial[0] += 1
        if anyval and case['cfg']['v'] and r % 4:
            return fresh_value(r // 5)
        if anyval and r % 4 == 1:
            return deaf()
        if cls is UserMapping or not INode.implementedBy(cls):
            return deaf()
        if issubclass(cls, NodeAttributes):
            return BaseNode()
        return cls()

    def identical(pairs, d):
        if ordered:
            return ident_pairs(pairs, d)
        if len(pairs) != len(d):
            return False
        rest = list(d)
        for k, v in pairs:
            for n, (mk, mv) in enumerate(rest):
                if mk == k and mv is v:
                    del rest[n]
                    break
            else:
                return False
        return True

    def keys_same(keys, d):
        return identical([(k, None) for k in keys], [(k, None) for k, v in d])

    def vals_same(vals, d):
        return identical([(0, v) for v in vals], [(0, v) for k, v in d]) if ordered else \
            sorted(map(id, vals)) == sorted(id(v) for k, v in d)

    def readback(n, full):
        o, d = objs[n], models[n].d
        mon.ev('readback')
        mon.true(keys_same(take(o), d), 'iter', 'iteration gives', take(o), 'expected', [k for k, v in d])
        mon.eq(len(o), len(d), 'len', 'len')
        mon.true(identical(ok(mon, 'items', 'items()', o.items), d), 'items', 'items() differ', o.items(), d)
        if not full:
            return
        ks = ok(mon, 'keys', 'keys()', o.keys)
        mon.true(isinstance(ks, list) and keys_same(ks, d), 'keys', 'keys()', ks, 'expected', [k for k, v in d])
        vs = ok(mon, 'values', 'values()', o.values)
        mon.true(vals_same(vs, d), 'values', 'values()', vs, 'expected', [v for k, v in d])
        mon.true(keys_same(take(o.iterkeys()), d), 'iterkeys', 'iterkeys() differ')
        mon.true(vals_same(take(o.itervalues()), d), 'itervalues', 'itervalues() differ')
        mon.true(identical(take(o.iteritems()), d), 'iteritems', 'iteritems() differ')
        for k, v in d:
            mon.is_(o[k], v, 'getitem', 'item', k)
            mon.is_(o.get(k), v, 'get', 'get', k)
            mon.eq(k in o, True, 'contains', 'contains', k)
        for r in range(nkeys):
            k = key(r)
            if models[n].find(k) < 0:
                mon.ev('missing')
                mon.eq(k in o, False, 'contains', 'contains missing', k)
                raises(mon, KeyError, 'getitem-missing', 'item {!r}'.format(k), lambda: o[k])
                mon.is_(o.get(k), None, 'get-missing', 'get', k)

    for op, a, b, c, e in case['ops']:
        n = a % 2
        o, m = objs[n], models[n]
        k = key(b)
        if op == 'overwrite' and m.d:
            k = m.d[b % len(m.d)][0]
            op = 'set'
        at = m.find(k)
        mon.ev('op.' + op)
        what = '{} {!r}'.format(op, k)
        mon.note(case['cfg']['cls'], '#%d' % n, op, k)
        if op == 'set':
            v = value(c)
            ok(mon, 'set', what, o.__setitem__, k, v)
            m.set(k, v)
        elif op == 'del':
            if at < 0:
                raises(mon, KeyError, 'del-missing', what, o.__delitem__, k)
            else:
                ok(mon, 'del', what, o.__delitem__, k)
                m.delete(k)
        elif op == 'get':
            dflt = pick([None, 0, deaf(), ''], c)
            r = ok(mon, 'get', what, o.get, k, dflt)
            mon.is_(r, dflt if at < 0 else m.d[at][1], 'get', what)
            continue
        elif op == 'item':
            if at < 0:
                raises(mon, KeyError, 'getitem-missing', what, lambda: o[k])
            else:
                mon.is_(o[k], m.d[at][1], 'getitem', what)
            continue
        elif op == 'contains':
            mon.eq(k in o, at >= 0, 'contains', what)
            continue
        elif op == 'has_key':
            mon.eq(bool(o.has_key(k)), at >= 0, 'has_key', what)
            continue
        elif op == 'iter':
            # a started iteration delivers what was there if nothing changes
            it = iter(o)
            got = [x for x, _ in zip(it, range(len(m.d)))]
            mon.true(keys_same(got, m.d), 'iter', 'stepwise iteration', got)
            # several iterations at once do not disturb each other
            its = [iter(o), o.iterkeys(), o.itervalues(), o.iteritems()]
            got = [[], [], [], []]
            for _ in range(len(m.d) + 1):
                for z in sorted(range(4), key=lambda z: (c >> z) & 3):
                    got[z] += [x for x in [next(its[z], its)] if x is not its]
            mon.ev('interleaved')
            mon.true(keys_same(got[0], m.d) and keys_same(got[1], m.d), 'iter', 'interleaved iteration', got[:2])
            mon.true(vals_same(got[2], m.d), 'itervalues', 'interleaved iteration', got[2])
            mon.true(identical(got[3], m.d), 'iteritems', 'interleaved iteration', got[3])
            # what is handed out belongs to the caller
            for fn in (o.keys, o.values, o.items):
                res = fn()
                res.reverse()
                res.append(res)
                del res[:e % 3]
            mon.true(keys_same(o.keys(), m.d), 'keys', 'after changing results')
            continue
        elif op == 'update':
            size = c % 5 if nkeys < 70 or c % 3 else c % 97
            pairs = [(key(b + j * 7 + j * j), value(c + j)) for j in range(size)]
            strs = [(x, y) for x, y in pairs if isinstance(x, str) and x != 'self']
            form = e % 7
            if form == 0:
                ok(mon, 'update', what, o.update, pairs)
            elif form == 1:
                pairs = take(dict(pairs).items())
                ok(mon, 'update', what, o.update, dict(pairs))
            elif form == 2:
                pairs = take(odict(pairs).items())
                ok(mon, 'update', what, o.update, odict(pairs))
            elif form == 3:
                ok(mon, 'update', what, o.update, (p for p in pairs))
            elif form == 6:
                # from another node
                src = PlainOdictNode(name='source')
                for x, y in pairs:
                    src[x] = y
                pairs = src.items()
                if c % 3 == 1:
                    # from other kinds of mappings
                    src = pick([UserDict, lambda x: MappingProxyType(dict(x)), ChainMap, OrderedDict,
                                lambda x: defaultdict(list, x)], e // 7)(dict(pairs))
                    mon.ev('foreign-mapping')
                    pairs = list(src.items())
                ok(mon, 'update', what, o.update, src)
                mon.true(ident_pairs(src.items(), pairs), 'update', 'source of update')
            elif form == 4:
                kw = dict((x, y) for x, y in pairs[2:] if isinstance(x, str) and x != 'self')
                ok(mon, 'update', what, o.update, pairs[:2], **kw)
                pairs = pairs[:2] + list(kw.items())
            else:
                kw = dict(strs)
                ok(mon, 'update', what, o.update, **kw)
                pairs = list(kw.items())
            for x, y in pairs:
                m.set(x, y)
        elif op == 'badupdate':
            raises(mon, TypeError, 'update-args', what, o.update, [(k, value(c))], [(k, value(c))])
        elif op == 'setdefault':
            v = value(c)
            r = ok(mon, 'setdefault', what, o.setdefault, k, v)
            mon.is_(r, v if at < 0 else m.d[at][1], 'setdefault', what)
            if at < 0:
                m.set(k, v)
        elif op == 'pop':
            if at < 0:
                raises(mon, KeyError, 'pop-missing', what, o.pop, k)
            else:
                mon.is_(ok(mon, 'pop', what, o.pop, k), m.d[at][1], 'pop', what)
                m.delete(k)
        elif op == 'popdef':
            dflt = pick([None, 0, deaf(), '', False], c)
            r = ok(mon, 'pop', what, o.pop, k, dflt)
            mon.is_(r, dflt if at < 0 else m.d[at][1], 'pop-default', what)
            if at >= 0:
                m.delete(k)
        elif op in ('popitem', 'drain'):
            for _ in range(1 if op == 'popitem' else len(m.d) + 1):
                if not m.d:
                    raises(mon, KeyError, 'popitem-empty', what, o.popitem)
                    continue
                r = ok(mon, 'popitem', what, o.popitem)
                mon.true(isinstance(r, tuple) and len(r) == 2, 'popitem', 'popitem gave', r)
                exp = m.d[-1]
                if not ordered and m.find(r[0]) >= 0:
                    exp = m.d[m.find(r[0])]
                mon.true(r[0] == exp[0] and r[1] is exp[1], 'popitem', 'popitem gave', r, 'expected', exp)
                m.delete(exp[0])
        elif op == 'clear':
            ok(mon, 'clear', what, o.clear)
            m.d = []
        elif op == 'read':
            readback(n, True)
            continue
        readback(n, e % 5 == 0)
        readback(1 - n, e % 10 == 0)
        mon.state((case['cfg']['cls'], tuple(map(repr, [x for x, y in m.d]))))
    readback(0, True)
    readback(1, True)


def fixed(mon):

    def large(cls, ordered):
        n, value = cls(), VOrderedNode
        keys = ['k%d' % i for i in range(400)]
        vals = [VNode() if IReference.implementedBy(cls) else value() for _ in keys]
        n.update(zip(keys, vals))

        def same_as(keys, vals):
            got = n.items()
            if not ordered:
                got = sorted(got, key=lambda x: keys.index(x[0]) if x[0] in keys else -1)
            mon.true(ident_pairs(got, list(zip(keys, vals))), 'large', 'items of', cls.__name__)
            mon.eq([len(n), len(n.keys()), len(n.values()), len(list(n.iteritems()))], [len(keys)] * 4, 'large', 'length')
            for k, v in zip(keys, vals):
                mon.is_(n[k], v, 'large', 'value')
                mon.true(k in n and n.has_key(k), 'large', 'membership')
        same_as(keys, vals)
        for i in range(100):
            k, v = n.popitem()
            at = keys.index(k)
            mon.is_(v, vals[at], 'large', 'popped')
            if ordered:
                mon.eq(at, len(keys) - 1, 'large', 'popped is last')
            del keys[at], vals[at]
        for i in range(0, 100):
            k = keys[i]
            v = vals[i]
            if i % 3:
                mon.is_(n.pop(k), v, 'large', 'popped')
            else:
                del n[k]
            keys[i] = None
        vals = [v for k, v in zip(keys, vals) if k is not None]
        keys = [k for k in keys if k is not None]
        same_as(keys, vals)
        n.clear()
        same_as([], [])

    class Broken(Exception):
        pass

    class Falsy(UserDict):
        def __bool__(self):
            return False

    class FalsyPairs(list):
        def __bool__(self):
            return False

    def updates(cls, ordered):
        """Sources which fail, which are none, and false ones."""
        value = VNode if IReference.implementedBy(cls) else VOrderedNode
        n, d = cls(), OrderedDict()

        def same_as(what):
            got, want = n.items(), list(d.items())
            if not ordered:
                got, want = sorted(got, key=lambda x: x[0]), sorted(want, key=lambda x: x[0])
            mon.ev('odd-update')
            mon.true(ident_pairs(got, want), 'update', 'after', what, 'holds', got, 'expected', want)

        def failing(pairs, exc):
            for p in pairs:
                yield p
            raise exc
        for exc in (Broken(), KeyError('x'), ValueError(), IndexError()):
            for size in (0, 1, 3):
                pairs = [(k, value()) for k in ['a', 'b', 'c'][:size]]
                for o in (n, d):
                    state, e = outcome(o.update, failing(pairs, exc))
                    mon.true(state == 'exc' and e is exc, 'update', 'failing source gives', state, e)
                same_as('an iterable which fails after {} pairs'.format(size))
        x, y = value(), value()
        for broken in (('z',), ('z', x, y), (), 5, None):
            for o in (n, d):
                state, e = outcome(o.update, [('b', x), broken, ('d', y)])
                mon.true(state == 'exc' and isinstance(e, (ValueError, TypeError)), 'update', 'broken pair gives', state, e)
            same_as('a broken pair')
        for none in (None, 0, 1.5, False, object()):
            raises(mon, TypeError, 'update', 'update with no mapping', n.update, none)
            same_as('update with no mapping')
        for empty in ((), [], {}, '', odict(), iter([])):
            ok(mon, 'update', 'update with nothing', n.update, empty)
            same_as('update with nothing')
        for kind in (Falsy, FalsyPairs):
            pairs = [('f', value()), ('a', value())]
            for o in (n, d):
                ok(mon, 'update', 'false source', o.update, kind(pairs))
            same_as('update with a false ' + kind.__name__)
        # the same key several times, the last value wins at the first place
        p, q, r = value(), value(), value()
        if not IReference.implementedBy(cls):
            for o in (n, d):
                ok(mon, 'update', 'same key', o.update, iter([('s', p), ('t', q), ('s', r)]), t=p)
            same_as('update with same keys')

    for name in sorted(MAPPINGS):
        cls, ordered, anykey, anyval = MAPPINGS[name]
        if INode.implementedBy(cls):
            yield 'large-' + name, lambda: large(cls, ordered)
            yield 'updates-' + name, lambda: updates(cls, ordered)
