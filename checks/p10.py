"""P10: a caching node never serves a stale child and reads each child once.

The lowest behavior of each composition is a monitored backend: it counts the
reads of each key, can produce a new object on each read (like a database
would) and fails on demand. A reference knows what the backend holds.
"""
from kit import *

ANCHORS = ['src/node/behaviors/cache.py']
RULE = ('a case is a composition of the cache with other behaviors, a backend mode, and 15-60 reads, writes, deletes, '
        'invalidations, external changes and injected backend failures; non-trivial: ran in agreement')
QUICK, THOROUGH = 3000, 60000
MIN = {'cached-reads': 20000, 'first-reads': 10000, 'failed-writes': 1000, 'external': 1000, 'invalidated': 2000,
       'falsy-cached': 500, 'peeked': 2000}
ASSUMPTIONS = ['changes made to the backend behind the node are only expected to show after invalidation']


class Boom(Exception):
    pass


class Backend(Behavior):
    """Monitored storage."""

    @default
    def backend(self):
        d = self.__dict__
        if 'backend_state' not in d:
            d['backend_state'] = {'data': odict(), 'reads': {}, 'fail': None, 'fresh': False, 'last': {},
                                  'peek': None, 'seen': []}
        return d['backend_state']

    @override
    def __getitem__(self, key):
        b = self.backend()
        if key not in b['data']:
            raise KeyError(key)
        b['reads'][key] = b['reads'].get(key, 0) + 1
        val = b['data'][key]
        if b['fresh']:
            val = Loaded(val)
        b['last'][key] = val
        return val

    @override
    def __setitem__(self, key, val):
        b = self.backend()
        if b['fail'] is not None:
            if b['fail'][0] == 'after':
                b['data'][key] = payload(val, b)
            raise b['fail'][1]
        self.peek('before', key)
        b['data'][key] = payload(val, b)
        self.peek('after', key)

    @default
    def peek(self, when, key):
        """Read the key through the whole node during an edit."""
        b = self.backend()
        if b['peek'] is not None and when in b['peek'][0]:
            b['seen'].append((when, outcome(self.__getitem__, b['peek'][1])))

    @override
    def __delitem__(self, key):
        b = self.backend()
        if key not in b['data']:
            raise KeyError(key)
        if b['fail'] is not None:
            if b['fail'][0] == 'after':
                del b['data'][key]
            raise b['fail'][1]
        self.peek('before', key)
        del b['data'][key]
        self.peek('after', key)

    @override
    def __iter__(self):
        return iter(list(self.backend()['data']))


class LazyInvalidate(Behavior):
    """Nothing is held besides the cache."""

    @default
    def invalidate(self, key=None):
        if key is not None and key not in self.backend()['data']:
            raise KeyError(key)


def payload(val, b):
    return val.payload if b['fresh'] and isinstance(val, Loaded) else val


class Loaded(OrderedNode):
    """What a backend with fresh objects returns."""

    def __init__(self, payload=None, name=None, parent=None):
        self.payload = payload
        self.__name__ = name
        self.__parent__ = parent


def make(*behaviors):
    return plumbing(*behaviors)(type('Composed', (object,), {}))


P_ = 'k-'


class AliasConf(Behavior):
    aliaser = default(None)


def compositions():
    from node.behaviors.alias import PrefixAliaser

    class APrefix(Behavior):
        aliaser = default(PrefixAliaser('x'))
    base = {
        'plain': (Cache, LazyInvalidate, DefaultInit, Nodify, Backend),
        'adopt-outside': (Adopt, Cache, LazyInvalidate, DefaultInit, Nodify, Backend),
        'adopt-inside': (Cache, Adopt, LazyInvalidate, DefaultInit, Nodify, Backend),
        'lifecycle-outside': (Lifecycle, Cache, LazyInvalidate, DefaultInit, Nodify, Backend),
        'lifecycle-inside': (Cache, Lifecycle, LazyInvalidate, DefaultInit, Nodify, Backend),
        'lifecycle-adopt': (Adopt, Lifecycle, Cache, LazyInvalidate, DefaultInit, Nodify, Backend),
        'alias-outside': (APrefix, Alias, Cache, LazyInvalidate, DefaultInit, Nodify, Backend),
        'alias-inside': (APrefix, Cache, Alias, LazyInvalidate, DefaultInit, Nodify, Backend),
        'validate': (NodeChildValidate, Cache, LazyInvalidate, DefaultInit, Nodify, Backend),
        'unicode': (UnicodeAware, Cache, LazyInvalidate, DefaultInit, Nodify, Backend),
        'events': (Cache, Events, LazyInvalidate, DefaultInit, Nodify, Backend),
        'nodespaces': (Cache, Nodespaces, LazyInvalidate, DefaultInit, Nodify, Backend),
        'nodespaces-outside': (Nodespaces, Attributes, Cache, LazyInvalidate, DefaultInit, Nodify, Backend),
        'reference': (Adopt, Reference, Cache, LazyInvalidate, DefaultInit, Nodify, Backend),
        'reference-inside': (Adopt, Cache, Reference, LazyInvalidate, DefaultInit, Nodify, Backend),
        'deleting-invalidate': (Cache, Invalidate, DefaultInit, Nodify, Backend),
        'deleting-lifecycle': (Adopt, Cache, Lifecycle, Invalidate, DefaultInit, Nodify, Backend),
        'fullmapping': (Cache, LazyInvalidate, FullMapping, Backend),
        'twice': (Adopt, Cache, Lifecycle, UnicodeAware, LazyInvalidate, DefaultInit, Nodify, Backend),
    }
    return {k: make(*v) for k, v in base.items()}


COMPOSED = compositions()
NAMES = sorted(COMPOSED)
KEYS = ['k0', '', 'k2', 'k3', 'k 4']
ODD = [0, '', (), 'k', -1.5]
ANYKEY = ('plain', 'adopt-outside', 'adopt-inside', 'events', 'fullmapping', 'deleting-invalidate')
NODES_ONLY = ('validate', 'reference', 'reference-inside')
W = {'get': 16, 'set': 8, 'del': 4, 'pop': 3, 'inv': 3, 'invall': 2, 'ext': 4, 'fail': 5, 'values': 2, 'setdefault': 2,
     'update': 1, 'clear': 1, 'popitem': 1, 'contains': 3, 'unknown': 2, 'other': 3, 'peek': 5, 'detach': 1, 'copy': 1}


def gen(rng, i, tier):
    name = NAMES[i % len(NAMES)]
    return {'cfg': {'comp': name, 'fresh': rng.random() < .4, 'nodes': rng.random() < .5, 'odd': rng.random() < .5,
                    'style': style(rng), 'bury': rng.randrange(R)},
            'ops': gen_ops(rng, W, 15, 60, 4)}


class Ref(object):
    """What the backend holds and what the node has to answer."""

    def __init__(self, mon, node, fresh, nodes, comp, oddkeys=None):
        self.mon = mon
        self.node = node
        self.fresh = fresh
        self.b = node.backend()
        self.b['fresh'] = fresh
        self.held = odict()     # key -> payload, as written through the node or outside
        self.known = {}         # key -> (object, payload): returned since the last change
        self.dirty = set()      # keys changed behind the node and not yet invalidated
        self.nodes = nodes
        self.comp = comp
        self.prefix = 'x' if comp.startswith('alias') else ''
        self.n = 0
        self.keys = KEYS
        self.oddkeys = oddkeys

    def key(self, r):
        return self.prefix + self.keys[r % 5] if self.oddkeys is None else self.oddkeys[r % 5]

    def real(self, key):
        return key[len(self.prefix):] if self.prefix else key

    def value(self, r):
        self.n += 1
        if self.fresh:
            return Loaded(('p', self.n)) if self.comp not in ('reference', 'reference-inside') else None
        if self.nodes or self.comp in NODES_ONLY:
            return type(self.node)() if self.comp.startswith('reference') else moody(VOrderedNode, pick((None,) + MOODS, r))()
        return fresh_value(r)

    def changed(self, key):
        self.known.pop(key, None)
        self.dirty.discard(key)

    def get(self, key, how):
        """One monitored read."""
        mon, node, b = self.mon, self.node, self.b
        real = self.real(key)
        before = b['reads'].get(real, 0)
        if key in self.dirty:
            return
        if key not in self.held:
            if how == 'get':
                marker = object()
                mon.is_(node.get(key, marker), marker, 'stale', 'get of the missing key {}'.format(key))
            elif how == 'in':
                mon.eq(key in node, False, 'stale', 'membership of', key)
            else:
                raises(mon, KeyError, 'stale', 'reading the missing key {}'.format(key), lambda: node[key])
            return
        if how == 'in':
            # might also be answered without reading
            mon.eq(key in node, True, 'stale', 'membership of', key)
            mon.true(b['reads'].get(real, 0) - before <= (key not in self.known), 'reads', 'backend reads of', key)
            if b['reads'].get(real, 0) - before:
                self.known[key] = (b['last'][real], self.held[key])
            return
        got = ok(mon, 'read', 'reading {}'.format(key), node.get if how == 'get' else node.__getitem__, key)
        n = b['reads'].get(real, 0) - before
        if key in self.known:
            mon.ev('cached-reads')
            if not got and got is not False:
                mon.ev('falsy-cached')
            mon.true(got is self.known[key][0], 'identity', 'repeated read of', key, 'returned', got, 'expected',
                     self.known[key][0])
            mon.eq(n, 0, 'reads', 'backend reads of {} though it was read before'.format(key))
        else:
            mon.ev('first-reads')
            mon.true(n <= 1, 'reads', 'backend was read', n, 'times for', key)
            if self.fresh:
                mon.true(isinstance(got, Loaded), 'stale', 'read of', key, 'returned', got)
                mon.eq(got.payload, self.held[key], 'stale', 'read of', key)
            else:
                mon.is_(got, self.held[key], 'stale', 'read of', key)
            self.known[key] = (got, self.held[key])


def run(case, mon):
    cfg = case['cfg']
    comp = cfg['comp']
    fresh = cfg['fresh'] and not comp.startswith('reference')
    refs = []
    for z in range(2):
        refs.append(Ref(mon, COMPOSED[comp](), fresh, cfg['nodes'], comp,
                        ODD if cfg.get('odd') and comp in ANYKEY else None))
    deleting = comp.startswith('deleting')
    for ref in refs:
        ref.keys = styled(cfg.get('style'), KEYS)
    if INode.providedBy(refs[0].node) and bury(refs[0].node, cfg.get('bury', 0), ref.keys):
        mon.ev('inner')
    for op, a, b, c, d in case['ops']:
        ref = refs[0] if d % 4 else refs[1]
        node = ref.node
        key = ref.key(a)
        mon.note(op, key, c, d, 'node', refs.index(ref))
        if op == 'get':
            ref.get(key, pick(['item', 'get', 'item'], b))
        elif op == 'contains':
            ref.get(key, 'in')
        elif op in ('set', 'update', 'setdefault'):
            if op == 'setdefault' and (key in ref.held or key in ref.dirty):
                if key not in ref.dirty:
                    known = ref.known.get(key)
                    got = ok(mon, 'setdefault', 'setdefault of a held key', node.setdefault, key, ref.value(b))
                    if known is not None:
                        mon.is_(got, known[0], 'identity', 'setdefault')
                    ref.known[key] = (got, ref.held[key])
                continue
            if comp.startswith('reference') and key in ref.held and c % 3 == 0:
                continue
            v = ref.value(b)
            if op == 'update':
                ok(mon, 'set', 'update', node.update, [(key, v)])
            elif op == 'setdefault':
                mon.is_(ok(mon, 'set', 'setdefault', node.setdefault, key, v), v, 'setdefault', 'result')
            else:
                ok(mon, 'set', 'setting', node.__setitem__, key, v)
            ref.held[key] = v.payload if fresh else v
            ref.changed(key)
            if c % 2:
                ref.get(key, 'item')
        elif op in ('del', 'pop', 'detach'):
            if op == 'detach' and not hasattr(node, 'detach'):
                continue
            if key in ref.dirty:
                continue
            if key not in ref.held:
                fn, args = {'del': (node.__delitem__, (key,)), 'pop': (node.pop, (key,)),
                            'detach': (getattr(node, 'detach', None), (key,))}[op]
                raises(mon, KeyError, 'delete-missing', op, fn, *args)
            else:
                known = ref.known.get(key)
                if op == 'del':
                    ok(mon, 'delete', 'del', node.__delitem__, key)
                else:
                    got = ok(mon, 'delete', op, node.pop if op == 'pop' else node.detach, key)
                    if known is not None:
                        mon.is_(got, known[0], 'identity', op)
                    elif fresh:
                        mon.eq(got.payload, ref.held[key], 'stale', op)
                    else:
                        mon.is_(got, ref.held[key], 'stale', op)
                del ref.held[key]
            ref.changed(key)
            if c % 2:
                ref.get(key, pick(['item', 'in', 'get'], c // 2))
        elif op == 'popitem' and not ref.dirty and ref.held:
            last = list(ref.held)[-1]
            known = ref.known.get(last)
            k, got = ok(mon, 'delete', 'popitem', node.popitem)
            mon.true(k in ref.held, 'stale', 'popitem returned key', k)
            known = ref.known.get(k)
            if known is not None:
                mon.is_(got, known[0], 'identity', 'popitem')
            del ref.held[k]
            ref.changed(k)
            ref.get(k, 'item')
        elif op == 'clear' and not ref.dirty:
            ok(mon, 'delete', 'clear', node.clear)
            for k in list(ref.held):
                del ref.held[k]
                ref.changed(k)
        elif op == 'inv':
            if key not in ref.b['data'] and ref.real(key) not in ref.b['data']:
                continue
            if comp == 'alias-outside':
                # the cache is below the aliases
                k = ref.real(key)
            else:
                k = key
            if comp == 'alias-inside':
                k = ref.real(key)
                continue
            ok(mon, 'invalidate', 'invalidate', node.invalidate, k)
            mon.ev('invalidated')
            ref.changed(key)
            if deleting:
                ref.held.pop(key, None)
            else:
                ref.held[key] = ref.b['data'][ref.real(key)]
            if c % 2:
                ref.get(key, 'item')
        elif op == 'invall':
            if deleting and ref.dirty:
                continue
            ok(mon, 'invalidate', 'invalidate all', node.invalidate)
            mon.ev('invalidated')
            for k in list(ref.held) + list(ref.dirty):
                ref.changed(k)
            ref.held.clear()
            if not deleting:
                for k, v in ref.b['data'].items():
                    ref.held[ref.prefix + k if ref.prefix else k] = v
            if c % 2:
                for k in list(ref.held):
                    ref.get(k, 'item')
        elif op == 'ext' and not comp.startswith('reference'):
            # changed behind the node; only known after invalidation
            mon.ev('external')
            real = ref.real(key)
            if c % 3 == 0 and real in ref.b['data']:
                del ref.b['data'][real]
                ref.dirty.add(key)
            else:
                v = ref.value(b)
                ref.b['data'][real] = v.payload if fresh else v
                ref.dirty.add(key)
            if key not in ref.known and key not in ref.held and real not in ref.b['data']:
                ref.dirty.discard(key)
            # what was never read since the last change is read from the backend
            if key not in ref.known:
                ref.dirty.discard(key)
                if real in ref.b['data']:
                    ref.held[key] = ref.b['data'][real]
                else:
                    ref.held.pop(key, None)
        elif op == 'fail' and key not in ref.dirty:
            # the write fails, before or after it had its effect
            exc = pick([KeyError('injected'), ValueError('injected'), AttributeError('injected'), Boom()], b)
            mode = pick(['before', 'after'], c)
            if comp.startswith('reference') and mode == 'after':
                mode = 'before'
            ref.b['fail'] = (mode, exc)
            if d % 3 == 0 and key in ref.held:
                state, e = outcome(node.__delitem__, key)
            else:
                state, e = outcome(node.__setitem__, key, ref.value(b))
            ref.b['fail'] = None
            mon.ev('failed-writes')
            mon.true(state == 'exc' and isinstance(e, type(exc)), 'failed-write', 'write failing with', exc, 'gave', e)
            real = ref.real(key)
            ref.changed(key)
            if real in ref.b['data']:
                ref.held[key] = ref.b['data'][real]
            else:
                ref.held.pop(key, None)
            ref.get(key, 'item')
        elif op == 'peek' and key not in ref.dirty and not comp.startswith('reference'):
            # the backend reads the node while it stores or removes
            removing = c % 3 == 0 and key in ref.held
            old, was = ref.held.get(key), key in ref.held
            known = ref.known.get(key)
            ref.b['peek'], ref.b['seen'] = (pick([('before',), ('after',), ('before', 'after')], c // 3), key), []
            v = ref.value(b)
            if removing:
                if comp in ('lifecycle-inside', 'deleting-lifecycle', 'twice'):
                    # the removed child is read below the cache
                    ref.b['peek'] = None
                ok(mon, 'peek', 'del', node.__delitem__, key)
                ref.held.pop(key)
            else:
                ok(mon, 'peek', 'setting', node.__setitem__, key, v)
                ref.held[key] = v.payload if fresh else v
            ref.b['peek'] = None
            # a read before and one after: the second may get either
            for when, (state, got) in ref.b['seen'][:1]:
                mon.ev('peeked')
                there = was if when == 'before' else not removing
                want = old if when == 'before' else ref.held.get(key)
                if not there:
                    mon.true(state == 'exc' and isinstance(got, KeyError), 'peek', 'read', when, 'the edit gave', got)
                elif when == 'after' or known is None:
                    mon.true(state == 'ok' and (got.payload == want if fresh else got is want), 'peek', 'read', when,
                             'the edit gave', got, 'expected', want)
            ref.changed(key)
            for how in ('item', 'in', 'item'):
                ref.get(key, how)
        elif op == 'values' and not ref.dirty:
            got = ok(mon, 'read', 'items', lambda: [(k, v) for k, v in node.items()])
            mon.eq(sorted((k for k, v in got), key=repr), sorted(ref.held, key=repr), 'stale', 'keys')
            for k, v in got:
                if k in ref.known:
                    mon.true(v is ref.known[k][0], 'identity', 'items', k)
                elif fresh:
                    mon.eq(v.payload, ref.held[k], 'stale', 'items', k)
                else:
                    mon.is_(v, ref.held[k], 'stale', 'items', k)
                ref.known[k] = (v, ref.held[k])
        elif op == 'unknown':
            raises(mon, KeyError, 'stale', 'unknown key', lambda: node[ref.prefix + 'nokey'])
        elif op == 'other':
            # nothing of this node is known to the other one
            for r in refs:
                for k in list(r.held):
                    r.get(k, 'item')
        mon.state((len(ref.held), len(ref.known), len(ref.dirty)))
    for ref in refs:
        for z in range(5):
            for how in ('item', 'get', 'in', 'item'):
                ref.get(ref.key(z), how)


def fixed(mon):

    def many(name):
        node, n = COMPOSED[name](), 1500
        b = node.backend()
        b['fresh'] = False
        p = 'x' if name.startswith('alias') else ''
        q = '' if name.startswith('alias') else p
        keys = ['k%d' % i for i in range(n)]
        vals = [VNode() if 'reference' in name else VOrderedNode() for _ in keys]
        for k, v in zip(keys, vals):
            b['data'][k] = v
        for times in range(3):
            for k, v in zip(keys, vals):
                mon.is_(node[p + k], v, 'many', 'child')
        mon.eq([b['reads'][k] for k in keys], [1] * n, 'many', 'reads of each')
        # the backend changes behind the node
        new = [VNode() if 'reference' in name else VOrderedNode() for _ in keys]
        for k, v in zip(keys, new):
            b['data'][k] = v
        if 'deleting' not in name and not name.startswith('alias'):
            for k in keys[:100:2]:
                node.invalidate(key=k)
            for i, k in enumerate(keys):
                mon.is_(node[k], new[i] if i < 100 and i % 2 == 0 else vals[i], 'many', 'child after some invalidations')
            node.invalidate()
            for i, k in enumerate(keys):
                mon.is_(node[k], new[i], 'many', 'child after invalidation')
            exp = [3 if i < 100 and i % 2 == 0 else 2 for i in range(n)]
            mon.eq([b['reads'][k] for k in keys], exp, 'many', 'reads of each')
        mon.ev('large')

    for name in NAMES:
        if name != 'fullmapping':
            yield 'many-' + name, lambda: many(name)
