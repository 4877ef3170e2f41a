"""P11: invalidation drops exactly the requested children.

Lockstep monitor: which children are loaded, who created them and what is
listed, for delete based and storage based invalidation, with and without lazy
children and caches.
"""
from kit import *

ANCHORS = ['src/node/behaviors/cache.py', 'src/node/behaviors/common.py']
RULE = ('a case is a node class with invalidation, and 10-45 reads, writes, invalidations of single, unknown and all '
        'keys; non-trivial: identities, keys and factory calls agreed with the reference')
QUICK, THOROUGH = 3000, 60000
MIN = {'invalidate.key': 4000, 'invalidate.unloaded': 1000, 'invalidate.unknown': 3000, 'invalidate.all': 1500,
       'created': 10000, 'falsy-key': 1000, 'vanished': 200, 'unlisted': 200}


class Child(VOrderedNode):
    pass


CALLS = []


class Factory(object):

    def __init__(self, name, kind):
        self.name = name
        self.kind = kind

    def __call__(self):
        CALLS.append(self.name)
        if self.kind == 0:
            return Child()
        if self.kind == 1:
            c = Child()
            c['sub'] = Child()
            return c
        return Unique()


class Unique(list):
    """A falsy plain value with identity."""
    __hash__ = object.__hash__

    def __eq__(self, other):
        return self is other


FKEYS = ['a', 'b', '', 'd d', 'ä', 'k' * 70, 'a.b/c%s', Text('text')]
GKEYS = ['a', '', 0, ('t',), 'z', 'k' * 70, '_u_', Text('text')]


def lazy(keys):
    return odict((k, Factory(k, n % 3)) for n, k in enumerate(keys))


def make(bases, **dct):
    return plumbing(*bases)(type('Composed', (object,), dct))


def sub(base, behaviors, **dct):
    return plumbing(*behaviors)(type('Composed', (base,), dct))


# name: (class, lazy keys or None, storage based)
CLASSES = {
    'delete-ordered': (sub(VOrderedNode, (Invalidate,)), None, False),
    'delete-base': (sub(VBaseNode, (Invalidate,)), None, False),
    'delete-node': (sub(VNode, (Invalidate,)), None, False),
    'delete-lifecycle': (sub(VOrderedNode, (Lifecycle, Invalidate)), None, False),
    'delete-cached': (sub(VOrderedNode, (Cache, Invalidate)), None, False),
    'delete-cached-node': (sub(VNode, (Cache, Invalidate)), None, False),
    'delete-cached-lifecycle': (sub(VOrderedNode, (Cache, Lifecycle, Invalidate)), None, False),
    'delete-lifecycle-cached': (sub(VOrderedNode, (Lifecycle, Cache, Invalidate)), None, False),
    'storage-ordered': (sub(VOrderedNode, (VolatileStorageInvalidate,)), None, True),
    'storage-base': (sub(VBaseNode, (VolatileStorageInvalidate,)), None, True),
    'storage-plain': (make((VolatileStorageInvalidate, DefaultInit, Nodify, DictStorage)), None, True),
    'storage-cached': (sub(VOrderedNode, (Cache, VolatileStorageInvalidate)), None, True),
    'lazy': (sub(VOrderedNode, (VolatileStorageInvalidate, ChildFactory), factories=lazy(FKEYS)), FKEYS, True),
    'lazy-base': (sub(VBaseNode, (VolatileStorageInvalidate, ChildFactory), factories=lazy(GKEYS)), GKEYS, True),
    'lazy-adopt': (make((Adopt, ChildFactory, VolatileStorageInvalidate, DefaultInit, Nodify, OdictStorage),
                        factories=lazy(GKEYS)), GKEYS, True),
    'lazy-cached': (sub(VOrderedNode, (Cache, VolatileStorageInvalidate, ChildFactory), factories=lazy(FKEYS)),
                    FKEYS, True),
    'lazy-cached-base': (make((Adopt, Cache, ChildFactory, VolatileStorageInvalidate, DefaultInit, Nodify,
                               DictStorage), factories=lazy(GKEYS)), GKEYS, True),
    'lazy-inner-cache': (make((Adopt, ChildFactory, Cache, VolatileStorageInvalidate, DefaultInit, Nodify,
                               DictStorage), factories=lazy(GKEYS)), GKEYS, True),
    'lazy-lifecycle': (sub(VOrderedNode, (Lifecycle, VolatileStorageInvalidate, ChildFactory),
                           factories=lazy(FKEYS[:3])), FKEYS[:3], True),
}
NAMES = sorted(CLASSES)
W = {'read': 14, 'inv': 8, 'invall': 3, 'unknown': 4, 'set': 5, 'readall': 3, 'get': 3, 'list': 2, 'del': 1, 'invloaded': 3, 'vanish': 3, 'extra': 2}


def gen(rng, i, tier):
    return {'cfg': {'cls': NAMES[i % len(NAMES)], 'bury': rng.randrange(R)}, 'ops': gen_ops(rng, W, 10, 45, 4)}


def run(case, mon):
    name = case['cfg']['cls']
    cls, keys, storage = CLASSES[name]
    anykey = 'node' not in name
    pool = keys or (GKEYS if anykey else FKEYS)
    strangers = ['nokey', 'A', '-', 'None'] + [k for k in pool if keys is None]
    nodes = [cls(), cls()]
    if bury(nodes[0], case['cfg'].get('bury', 0)):
        mon.ev('inner')
    loaded = [odict(), odict()]

    def read(n, k, how=0):
        node, have = nodes[n], loaded[n]
        del CALLS[:]
        fn = node.__getitem__ if how % 2 == 0 else node.get
        if k in have:
            got = ok(mon, 'read', 'reading a loaded child', fn, k)
            mon.is_(got, have[k], 'dropped-too-much', 'child {!r} of node {}'.format(k, n))
            mon.eq(CALLS, [], 'factory', 'factory calls reading a loaded child')
        elif keys:
            got = ok(mon, 'read', 'reading a lazy child', fn, k)
            mon.eq(CALLS, [k], 'factory', 'factory calls reading a dropped or new lazy child')
            for h in loaded:
                for x in h.values():
                    mon.true(got is not x, 'not-dropped', 'old child returned for', k)
            mon.ev('created')
            have[k] = got
        else:
            raises(mon, KeyError, 'not-dropped', 'reading a dropped child', lambda: node[k])

    def check(n, deep):
        node, have = nodes[n], loaded[n]
        exp = list(keys) if keys else list(have)
        got = take(node)
        if isinstance(node, (BaseNode,)) or 'plain' in name:
            got.sort(key=repr)
            exp.sort(key=repr)
        mon.eq(got, exp, 'keys', 'keys of node {}'.format(n))
        mon.eq(len(node), len(exp), 'keys', 'length')
        for k in list(have):
            if deep:
                read(n, k)

    for op, a, b, c, d in case['ops']:
        n = 0 if d % 4 else 1
        node, have = nodes[n], loaded[n]
        k = pick(pool, a)
        other = odict(loaded[1 - n])
        mon.note(op, k, b, 'node', n)
        del CALLS[:]
        if op in ('read', 'get'):
            read(n, k, b)
        elif op == 'readall':
            for x in pool:
                read(n, x, b)
        elif op == 'set':
            v = moody(pick([VNode if 'node' in name else Child, Unique], b), pick((None,) + MOODS, b // 2))()
            node[k] = v
            if k in have:
                have[k] = v
            else:
                have[k] = v
            mon.eq(CALLS, [], 'factory', 'factory calls while setting')
        elif op in ('inv', 'invloaded'):
            if op == 'invloaded' and have:
                k = pick(list(have), a)
            if not isinstance(k, str) or not k:
                mon.ev('falsy-key')
            if k in have:
                mon.ev('invalidate.key')
                ok(mon, 'invalidate', 'invalidating a loaded child', node.invalidate, k)
                del have[k]
            elif keys:
                mon.ev('invalidate.unloaded')
                ok(mon, 'invalidate', 'invalidating a valid but unloaded key', node.invalidate, k)
            else:
                mon.ev('invalidate.unknown')
                raises(mon, KeyError, 'invalidate-unknown', 'invalidating {!r}'.format(k), node.invalidate, k)
            mon.eq(CALLS, [], 'factory', 'factory calls while invalidating')
        elif op == 'invall':
            mon.ev('invalidate.all')
            if c % 2:
                ok(mon, 'invalidate', 'invalidating all', node.invalidate)
            else:
                ok(mon, 'invalidate', 'invalidating all', lambda: node.invalidate(key=None))
            have.clear()
            mon.eq(CALLS, [], 'factory', 'factory calls while invalidating all')
        elif op == 'unknown':
            k = pick(strangers, a)
            if k not in have:
                mon.ev('invalidate.unknown')
                raises(mon, KeyError, 'invalidate-unknown', 'invalidating {!r}'.format(k), node.invalidate, k)
                mon.eq(CALLS, [], 'factory', 'factory calls while invalidating an unknown key')
        elif op == 'vanish' and not keys and 'node' not in name and have:
            # the child is gone in the backend: whatever invalidation says, it is not served any more
            k = pick(list(have), a)
            if b % 2:
                node[k]
            del node.storage[k]
            del have[k]
            mon.ev('vanished')
            raises(mon, KeyError, 'invalidate-unknown', 'invalidating a vanished child', node.invalidate, k)
            raises(mon, KeyError, 'not-dropped', 'reading a vanished child after invalidation', lambda: node[k])
        elif op == 'extra' and keys and 'lifecycle' not in name:
            # a child nobody lists is dropped with all others
            x = node['extra'] = Child()
            mon.is_(node['extra'], x, 'dropped-too-much', 'unlisted child')
            node.invalidate()
            have.clear()
            mon.ev('unlisted')
            raises(mon, KeyError, 'not-dropped', 'reading an unlisted child after invalidation', lambda: node['extra'])
        elif op == 'del' and k in have:
            ok(mon, 'delete', 'del', node.__delitem__, k)
            del have[k]
        check(n, b % 3 == 0)
        if c % 3 == 0:
            check(1 - n, True)
        mon.state((tuple(map(repr, have)), n))
    check(0, True)
    check(1, True)
    if keys:
        for n in (0, 1):
            for k in keys:
                read(n, k)


def fixed(mon):

    def large(name):
        cls, keys, storage = CLASSES[name]
        if keys is not None:
            return
        child = VNode if 'node' in name else VOrderedNode
        n = cls()
        kids = odict(('k%d' % i, child()) for i in range(200))
        for k, v in kids.items():
            n[k] = v
        for k in list(kids)[::2]:
            mon.is_(n[k], kids[k], 'large', 'child')
        for k in list(kids)[10:30]:
            n.invalidate(key=k)
            raises(mon, KeyError, 'large', 'invalidated child', n.__getitem__, k)
            del kids[k]
        mon.eq(sorted(n.keys()), sorted(kids), 'large', 'remaining keys')
        for k, v in kids.items():
            mon.is_(n[k], v, 'large', 'child')
        n.invalidate()
        mon.eq([len(n), n.keys()], [0, []], 'large', 'after invalidation')
        for k in kids:
            raises(mon, KeyError, 'large', 'invalidated child', n.__getitem__, k)
            mon.true(k not in n, 'large', 'invalidated child')
        mon.ev('large')

    def lazily(bases, keep):
        del CALLS[:]
        keys = ['k%d' % i for i in range(200)]
        cls = sub(keep, bases, factories=odict((k, Factory(k, n % 3)) for n, k in enumerate(keys)))
        n = cls()
        first = dict((k, n[k]) for k in keys)
        mon.eq(CALLS, keys, 'large', 'made')
        n.invalidate()
        mon.eq(n.keys(), keys, 'large', 'keys')
        again = dict((k, n[k]) for k in reversed(keys))
        mon.eq(CALLS, keys + keys[::-1], 'large', 'made again')
        mon.true(not any(first[k] is again[k] for k in keys), 'large', 'new children')
        for k in keys[::4]:
            n.invalidate(key=k)
        del CALLS[:]
        for k in keys:
            mon.eq(n[k] is again[k], k not in keys[::4], 'large', 'child')
        mon.eq(CALLS, keys[::4], 'large', 'made again')
        mon.ev('large')

    for name in NAMES:
        yield 'large-' + name, lambda: large(name)
    for bases in ((VolatileStorageInvalidate, ChildFactory), (Cache, VolatileStorageInvalidate, ChildFactory)):
        for keep in (VOrderedNode, VBaseNode):
            yield 'large-lazy-%d-%s' % (len(bases), keep.__name__), lambda: lazily(bases, keep)
