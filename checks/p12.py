"""P12: child factories create each child once, on demand, adopted, for known keys.

Factories log their calls, may fail, may read siblings while running and may
return falsy nodes or plain values; the log is compared with a reference after every
operation.
"""
from kit import *

ANCHORS = ['src/node/behaviors/common.py']
RULE = ('a case is a composition with child factories, its keys and kinds of factories, and 12-50 reads, listings, '
        'writes and removals on two instances; non-trivial: factory log, identities and keys agreed with the reference')
QUICK, THOROUGH = 3000, 60000
MIN = {'created': 15000, 'reread': 20000, 'failed': 2000, 'listed': 5000, 'unknown': 2000, 'user-set': 3000,
       'falsy': 500, 'plain-value': 1000, 'nested': 200, 'refused': 50}


MISSING = object()


class Boom(Exception):
    pass


class Leaf(VNode):
    pass


class Falsy(list):
    __hash__ = object.__hash__

    def __eq__(self, other):
        return self is other


LOG = []
# what the factories of the kind 'value' make
VALUES = {}
CTRL = {'fail': None, 'node': None}


class Factory(object):

    def __init__(self, name, kind, other):
        self.name = name
        self.kind = kind
        self.other = other

    def __call__(self):
        LOG.append(self.name)
        if CTRL['fail'] is not None:
            if CTRL['fail'] == 'bad':
                return 'no node'
            raise CTRL['fail']
        if self.kind == 'falsy':
            return Falsy()
        if self.kind == 'value':
            return VALUES[self.name]
        if self.kind == 'reads' and CTRL['node'] is not None and self.other != self.name:
            # needs a sibling of the same node
            CTRL['node'][self.other]
        n = moody(Leaf, CTRL.get('mood'))(name='given by the factory')
        if self.kind == 'deep':
            n['sub'] = Leaf()
        return n


def sub(base, behaviors, **dct):
    return plumbing(*behaviors)(type('Composed', (base,), dct))


def make(bases, **dct):
    return plumbing(*bases)(type('Composed', (object,), dct))


# name: (build, adopts, allows values, unhashable-free any key)
BASES = {
    'ordered': (lambda f: sub(VOrderedNode, (ChildFactory,), factories=f), True, False),
    'base': (lambda f: sub(VBaseNode, (ChildFactory,), factories=f), True, False),
    'node': (lambda f: sub(VNode, (ChildFactory,), factories=f), True, True),
    'validating': (lambda f: sub(OrderedNode, (ChildFactory,), factories=f), True, False),
    'adopt-dict': (lambda f: make((Adopt, ChildFactory, DefaultInit, Nodify, DictStorage), factories=f), True, False),
    'adopt-odict': (lambda f: make((Adopt, DefaultInit, Nodify, ChildFactory, OdictStorage), factories=f), True, False),
    'cached': (lambda f: sub(VOrderedNode, (Cache, ChildFactory, VolatileStorageInvalidate), factories=f), True, False),
    'cached-inside': (lambda f: make((Adopt, ChildFactory, Cache, VolatileStorageInvalidate, DefaultInit, Nodify,
                                      DictStorage), factories=f), True, False),
    'lifecycle': (lambda f: sub(VOrderedNode, (Lifecycle, ChildFactory), factories=f), True, True),
    'instance': (None, True, False),
    'invalidating': (lambda f: sub(VOrderedNode, (VolatileStorageInvalidate, ChildFactory), factories=f), True, False),
    'plaindict-factories': (lambda f: sub(VOrderedNode, (ChildFactory,), factories=dict(f)), True, False),
    'no-adopt': (lambda f: make((DefaultInit, Nodify, ChildFactory, OdictStorage), factories=f), False, False),
}
NAMES = sorted(BASES)
KINDS = ['plain', 'plain', 'deep', 'falsy', 'reads', 'value']
MADE = [None, 0, '', 'text', (), False, 7]
W = {'read': 14, 'get': 4, 'in': 3, 'list': 6, 'items': 2, 'values': 2, 'set': 5, 'del': 3, 'pop': 2, 'detach': 2,
     'fail': 5, 'unknown': 4, 'setdefault': 2, 'popitem': 1, 'inv': 2, 'invall': 1, 'extra': 2, 'update': 1}


def gen(rng, i, tier):
    n = rng.randint(0, 6) if rng.random() < .3 else rng.randint(2, 5)
    return {'cfg': {'base': NAMES[i % len(NAMES)], 'kinds': [rng.choice(KINDS) for z in range(n)],
                    'keys': rng.sample(range(8), n), 'other': [rng.randrange(R) for z in range(n)],
                    'mood': rng.choice((None, None) + MOODS), 'style': style(rng), 'bury': rng.randrange(R)},
            'ops': gen_ops(rng, W, 12, 50, 4)}


POOL = ['a', 'b', '', 'ä', 'key', '0', 'x y', '_p']
APOOL = ['a', 0, '', 'ä', ('t', 1), 1.5, b'b', -1]


def run(case, mon):
    cfg = case['cfg']
    build, adopts, strkeys = BASES[cfg['base']]
    CTRL['mood'] = cfg['mood']
    validating = cfg['base'] == 'validating'
    pool = styled(cfg.get('style'), POOL if strkeys else APOOL)
    keys = [pool[k] for k in cfg['keys']]
    factories = odict()
    for n, k in enumerate(keys):
        kind = cfg['kinds'][n]
        if kind in ('falsy', 'value') and validating:
            kind = 'plain'
        VALUES[k] = pick(MADE, cfg['other'][n])
        other = keys[cfg['other'][n] % len(keys)]
        # only what comes earlier, so that factories do not need each other
        if kind == 'reads' and keys.index(other) >= n:
            kind = 'plain'
        factories[k] = Factory(k, kind, other)
    if build is None:
        cls = sub(VOrderedNode, (ChildFactory,))
        nodes = [cls(), cls()]
        for n in nodes:
            n.factories = factories
    else:
        cls = build(factories)
        nodes = [cls(), cls()]
    CTRL['fail'] = None
    if bury(nodes[0], cfg.get('bury', 0), POOL):
        mon.ev('inner')
    loaded = [{}, {}]

    def expect(n, k):
        """Factory calls and children to appear by reading k."""
        if k in loaded[n] or k not in factories:
            return []
        f = factories[k]
        out = [k]
        if f.kind == 'reads' and f.other != k:
            out += expect(n, f.other)
        return out

    def adopted(n, k, v):
        if adopts and INode.providedBy(v):
            mon.true(v.__name__ == k and v.__parent__ is nodes[n], 'adopted', 'child', k, 'reports', v.__name__)

    def learn(n, calls):
        """Children created during the last call are now loaded; get their objects."""
        for k in calls:
            if k not in loaded[n]:
                del LOG[:]
                v = ok(mon, 'read', 'reading a child just created', nodes[n].__getitem__, k)
                mon.eq(LOG, [], 'factory-again', 'factory calls reading the created child {!r}'.format(k))
                loaded[n][k] = v
                if factories[k].kind == 'value':
                    mon.ev('plain-value')
                    mon.is_(v, VALUES[k], 'value', 'value made for {!r}'.format(k))
                adopted(n, k, v)
                mon.ev('created')
                if not v:
                    mon.ev('falsy')

    def read(n, k, fn):
        node, have = nodes[n], loaded[n]
        CTRL['node'] = node
        exp = expect(n, k)
        del LOG[:]
        got = ok(mon, 'read', 'reading {!r}'.format(k), fn, k)
        mon.eq(list(LOG), exp, 'factory', 'factory calls reading {!r}'.format(k))
        if k in have:
            mon.ev('reread')
            mon.is_(got, have[k], 'identity', 'child {!r}'.format(k))
        else:
            for h in loaded:
                if INode.providedBy(got):
                    mon.true(all(got is not x for x in h.values()), 'shared', 'child', k, 'is an old one')
            if len(exp) > 1:
                mon.ev('nested')
            learn(n, exp)
            mon.is_(got, have[k], 'identity', 'child {!r} read again'.format(k))
        return got

    for op, a, b, c, d in case['ops']:
        n = 0 if d % 4 else 1
        node, have = nodes[n], loaded[n]
        CTRL['node'] = node
        k = pick(keys, a) if keys else 'none'
        mon.note(op, k, b, 'node', n, 'loaded', sorted(map(repr, have)))
        if not keys and op not in ('list', 'unknown', 'items', 'values'):
            continue
        if op in ('read', 'get'):
            read(n, k, node.__getitem__ if op == 'read' else node.get)
        elif op == 'in':
            del LOG[:]
            fn = (lambda: k in node) if b % 2 or not hasattr(node, 'has_key') else (lambda: node.has_key(k))
            mon.eq(ok(mon, 'in', 'membership', fn), True, 'in', 'membership of a factory key')
            calls = list(LOG)
            mon.true(calls in ([], expect(n, k)), 'factory', 'factory calls by membership', calls)
            learn(n, calls)
        elif op == 'list':
            mon.ev('listed')
            del LOG[:]
            mon.eq(take(node), keys, 'keys', 'iteration')
            mon.eq(node.keys(), keys, 'keys', 'keys()')
            mon.eq(take(node.iterkeys()), keys, 'keys', 'iterkeys()')
            mon.eq(len(node), len(keys), 'keys', 'length')
            mon.eq(LOG, [], 'factory', 'factory calls while listing')
        elif op in ('items', 'values'):
            exp = []
            seen = {}
            save = dict(have)
            for x in keys:
                e = expect(n, x)
                exp += e
                for y in e:
                    have[y] = None
            have.clear()
            have.update(save)
            del LOG[:]
            if op == 'items':
                got = ok(mon, 'read', 'items', lambda: take(node.items() if b % 2 else node.iteritems()))
            else:
                got = list(zip(keys, ok(mon, 'read', 'values', lambda: take(node.values() if b % 2 else
                                                                           node.itervalues()))))
            mon.eq(list(LOG), exp, 'factory', 'factory calls by ' + op)
            learn(n, exp)
            mon.true(ident_pairs(got, [(x, have[x]) for x in keys]), 'identity', op, 'are', got)
        elif op in ('set', 'update', 'extra'):
            v = Leaf() if validating or strkeys or b % 2 else Falsy()
            if op == 'extra':
                k = 'extra'
            del LOG[:]
            if op == 'update':
                ok(mon, 'set', 'update', node.update, [(k, v)])
            else:
                ok(mon, 'set', 'setting', node.__setitem__, k, v)
            mon.eq(LOG, [], 'factory', 'factory calls while setting')
            mon.ev('user-set')
            mon.is_(ok(mon, 'read', 'reading', node.__getitem__, k), v, 'precedence', 'child set by the user')
            mon.eq(LOG, [], 'factory', 'factory calls reading a child set by the user')
            if op == 'extra':
                ok(mon, 'delete', 'del', node.__delitem__, k)
                raises(mon, KeyError, 'unknown', 'removed extra key', lambda: node[k])
            else:
                have[k] = v
                adopted(n, k, v)
        elif op == 'setdefault':
            mon.is_(read(n, k, lambda x: node.setdefault(x, Leaf())), have[k], 'identity', 'setdefault')
        elif op == 'del' and k in have:
            del LOG[:]
            ok(mon, 'delete', 'del', node.__delitem__, k)
            mon.eq(LOG, [], 'factory', 'factory calls while deleting a loaded child')
            del have[k]
        elif op in ('pop', 'detach') and (k in have or c % 2):
            old = have.get(k, MISSING)
            exp = expect(n, k)
            del LOG[:]
            got = ok(mon, 'delete', op, getattr(node, op), k)
            mon.eq(list(LOG), exp, 'factory', 'factory calls by ' + op)
            if old is not MISSING:
                mon.is_(got, old, 'identity', op)
            have.pop(k, None)
            learn(n, [x for x in exp if x != k])
        elif op == 'popitem' and keys[-1] in have:
            k, got = ok(mon, 'delete', 'popitem', node.popitem)
            mon.is_(got, have.get(k), 'identity', 'popitem')
            have.pop(k)
        elif op == 'fail':
            fn = pick([node.__getitem__, node.get], c)
            exc = pick([Boom(), ValueError('injected'), KeyError('injected'), AttributeError('injected'),
                        TypeError('injected')], b)
            CTRL['fail'] = exc
            exp = expect(n, k)[:1]
            del LOG[:]
            state, got = outcome(fn, k)
            calls = list(LOG)
            CTRL['fail'] = None
            if k in have:
                mon.eq(state, 'ok', 'read', 'reading a loaded child')
                mon.is_(got, have[k], 'identity', k)
                continue
            mon.ev('failed')
            mon.eq(calls, exp, 'factory', 'calls of the failing factory')
            if isinstance(exc, KeyError) and fn == node.get:
                mon.true(state == 'ok' and got is None, 'failing-factory', 'get gave', got)
            else:
                mon.true(state == 'exc' and type(got) is type(exc), 'failing-factory', 'expected', exc, 'got', got)
            mon.eq(take(node), keys, 'keys', 'keys after a failing factory')
            # no entry is left: the next read creates the child
            read(n, k, node.__getitem__)
            if validating and b % 2:
                # what the factory made is refused
                del have[k]
                ok(mon, 'delete', 'del', node.__delitem__, k)
                CTRL['fail'] = 'bad'
                mon.ev('refused')
                raises(mon, ValueError, 'failing-factory', 'refused child', lambda: node[k])
                CTRL['fail'] = None
                read(n, k, node.__getitem__)
        elif op == 'unknown':
            mon.ev('unknown')
            x = pick(['nokey', 'a ', 'A', 'no/key', 'None'], a)
            if x in keys:
                continue
            del LOG[:]
            raises(mon, KeyError, 'unknown', 'unknown key', lambda: node[x])
            mark = object()
            mon.is_(node.get(x, mark), mark, 'unknown', 'get of an unknown key')
            mon.eq(x in node, False, 'unknown', 'membership of an unknown key')
            mon.eq(LOG, [], 'factory', 'factory calls for an unknown key')
        elif op == 'inv' and hasattr(node, 'invalidate'):
            node.invalidate(k)
            have.pop(k, None)
        elif op == 'invall' and hasattr(node, 'invalidate'):
            node.invalidate()
            have.clear()
        for x in have:
            if c % 4 == 0:
                read(n, x, node.__getitem__)
        mon.state((cfg['base'], len(have), len(keys)))
    for n in (0, 1):
        for k in keys:
            read(n, k, nodes[n].__getitem__)
        mon.eq(take(nodes[n]), keys, 'keys', 'final keys')


def fixed(mon):

    def many(name):
        build, adopts, values = BASES[name]
        if build is None:
            return
        del LOG[:]
        keys = ['k%d' % i for i in range(250)]
        node = build(odict((k, Factory(k, 'plain', k)) for k in keys))()
        mon.eq(node.keys(), keys, 'many', 'keys')
        mon.eq(LOG, [], 'many', 'made by listing')
        first = [node[k] for k in reversed(keys)]
        mon.eq(LOG, keys[::-1], 'many', 'made')
        for times in range(2):
            for k, c in zip(reversed(keys), first):
                mon.is_(node[k], c, 'many', 'child')
                if adopts:
                    mon.is_(c.parent, node, 'many', 'parent')
                    mon.eq(c.name, k, 'many', 'name')
        mon.eq([node.keys(), node.values()], [keys, first[::-1]], 'many', 'contents')
        raises(mon, KeyError, 'many', 'unknown key', node.__getitem__, 'k250')
        mon.eq(len(LOG), 250, 'many', 'made once')
        mon.ev('large')

    for name in NAMES:
        yield 'many-' + name, lambda: many(name)
