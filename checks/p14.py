"""P14: an aliased node is the same mapping seen under its aliases.

Lockstep monitor with both views: every operation goes through the aliased
node or directly to the mapping below it; a reference keeps the real entries
and translates with tables of its own.
"""
from kit import *
from node.behaviors.alias import AliaserChain
from node.behaviors.alias import DictAliaser
from node.behaviors.alias import PrefixAliaser
from node.behaviors.alias import PrefixSuffixAliaser
from node.behaviors.alias import SuffixAliaser
from zope.interface.common.mapping import IEnumerableMapping

ANCHORS = ['src/node/behaviors/alias.py']
RULE = ('a case is a composition with the alias behavior, an aliaser and 12-50 operations through the aliased view and '
        'below it; non-trivial: both views agreed with the reference after each operation')
QUICK, THOROUGH = 3000, 80000
MIN = {'views': 50000, 'refused': 5000, 'hidden': 3000, 'missing': 3000, 'below': 5000, 'empty-aliaser': 50,
       'changed-aliaser': 300, 'text-keys': 1000, 'inner': 500}
ASSUMPTIONS = ['dictionary aliasers are one-to-one; keys a non-strict dictionary passes through collide with no alias']


class Below(Behavior):
    """The underlying mapping, directly accessible as ``below``."""

    @default
    @property
    def below(self):
        return self.__dict__.setdefault('below_', odict())

    @override
    def __getitem__(self, key):
        return self.below[key]

    @override
    def __setitem__(self, key, val):
        if key == 'refuse':
            raise KeyError(key)
        self.below[key] = val

    @override
    def __delitem__(self, key):
        del self.below[key]

    @override
    def __iter__(self):
        return iter(self.below)


@implementer(IEnumerableMapping)
class ListedAliaser(object):
    """An enumerable aliaser which is no dictionary: lists keys, upper case."""

    def __init__(self, table):
        self.table = table

    def alias(self, key):
        for k, v in self.table:
            if v == key:
                return k
        raise KeyError(key)

    def unalias(self, key):
        for k, v in self.table:
            if k == key:
                return v
        raise KeyError(key)

    def __iter__(self):
        return iter([k for k, v in self.table])

    def __len__(self):
        return len(self.table)

    def __getitem__(self, key):
        return self.unalias(key)


class QuietAliaser(ListedAliaser):
    """Always false."""

    def __bool__(self):
        return False


def make(*b):
    return plumbing(*b)(type('Composed', (object,), {}))


CLASSES = {
    'pure': make(Alias, FullMapping, Below),
    'node': make(Alias, DefaultInit, Nodify, Below),
    'adopt-outside': make(Adopt, Alias, DefaultInit, Nodify, Below),
    'adopt-inside': make(Alias, Adopt, DefaultInit, Nodify, Below),
    'validate': make(NodeChildValidate, Adopt, Alias, DefaultInit, Nodify, Below),
    'cached': make(Alias, Cache, Invalidate, DefaultInit, Nodify, Below),
    'unicode': make(UnicodeAware, Alias, DefaultInit, Nodify, Below),
    'lifecycle': make(Adopt, Lifecycle, Alias, DefaultInit, Nodify, Below),
    'events': make(Alias, Events, DefaultInit, Nodify, Below),
}
NAMES = sorted(CLASSES)
REAL = ['a', 'b', 'c', 'd', '', 'ä', 'real-1', 'p-x', 'refuse', 'k' * 70, Text('text'), '_u_']
W = {'set': 10, 'get': 8, 'del': 5, 'in': 4, 'below-set': 6, 'below-del': 3, 'pop': 3, 'popitem': 2, 'clear': 1,
     'update': 2, 'setdefault': 3, 'foreign': 5, 'missing': 4, 'switch': 1, 'iterdel': 1, 'refuse': 1, 'detach': 1}
KINDS = ['none', 'strict', 'strict', 'loose', 'prefix', 'suffix', 'both', 'chain', 'listed', 'quiet', 'empty',
         'emptyprefix', 'chaindict']


def gen(rng, i, tier):
    return {'cfg': {'cls': NAMES[i % len(NAMES)], 'kind': rng.choice(KINDS), 'n': rng.randint(1, 6),
                    'shuffle': rng.sample(range(11), 11), 'kind2': rng.choice(KINDS), 'bury': rng.randrange(R)},
            'ops': gen_ops(rng, W, 12, 50, 4)}


def aliaser(kind, cfg):
    """(aliaser, real -> alias or None, alias -> real or None)"""
    names = ['A1', 'B2', '', 'ö', 'x y', 'a', 'zz', '_', 'N' * 40, Text('t'), '%s']
    table = [('%s!' % names[s] if s != 2 or kind != 'strict' else '', REAL[n]) for n, s in
             enumerate(cfg['shuffle'][:cfg['n']])]
    if kind == 'empty':
        table = []
    fwd = {v: k for k, v in table}
    back = {k: v for k, v in table}
    if kind == 'none':
        return None, lambda r: r, lambda k: k
    if kind in ('strict', 'empty'):
        return DictAliaser(table), fwd.get, back.get
    if kind == 'listed':
        return ListedAliaser(table), fwd.get, back.get
    if kind == 'quiet':
        return QuietAliaser(table), fwd.get, back.get
    if kind == 'loose':
        return DictAliaser(table, strict=False), lambda r: fwd.get(r, r), \
            lambda k: back.get(k, k) if k in back or k not in fwd else None
    if kind == 'chaindict':
        return AliaserChain([DictAliaser(table, strict=False), PrefixAliaser('q')]), \
            lambda r: 'q' + fwd.get(r, r), \
            lambda k: (back.get(k[1:], k[1:]) if k[1:] in back or k[1:] not in fwd else None) if k[:1] == 'q' else None
    pre, suf = {'prefix': ('p-', ''), 'suffix': ('', '-s'), 'both': ('p-', '-s'), 'chain': ('2p-', '-s'),
                'emptyprefix': ('', '')}[kind]
    obj = {'prefix': lambda: PrefixAliaser('p-'), 'suffix': lambda: SuffixAliaser('-s'),
           'both': lambda: PrefixSuffixAliaser('p-', '-s'), 'emptyprefix': lambda: PrefixAliaser(),
           'chain': lambda: AliaserChain([PrefixAliaser('p-'), SuffixAliaser('-s'), PrefixAliaser('2')])}[kind]()

    def unalias(k):
        if k.startswith(pre) and k.endswith(suf) and len(k) >= len(pre) + len(suf):
            return k[len(pre):len(k) - len(suf)]
    return obj, lambda r: pre + r + suf, unalias


def run(case, mon):
    cfg = case['cfg']
    cls = CLASSES[cfg['cls']]
    node, other = cls(), cls()
    if bury(node, cfg.get('bury', 0), REAL):
        mon.ev('inner')
    nodes_only = cfg['cls'] == 'validate'
    kind = cfg['kind']
    obj, fwd, back = aliaser(kind, cfg)
    node.aliaser = obj
    real = odict()

    def collides(r):
        """Real keys a non-strict dictionary cannot name."""
        a = fwd(r)
        return kind in ('loose', 'chaindict') and (a is None or back(a) != r)

    def view():
        return [(fwd(r), v) for r, v in real.items() if fwd(r) is not None]

    def value(r):
        return Child() if nodes_only or r % 2 else fresh_value(r)

    def check():
        mon.ev('views')
        exp = view()
        mon.true(ident_pairs(list(node.below.items()), list(real.items())), 'below', 'entries below are',
                 list(node.below.items()), 'expected', list(real.items()))
        keys = take(node)
        mon.eq(keys, [k for k, v in exp], 'keys', 'iteration')
        mon.eq(node.keys(), keys, 'keys', 'keys()')
        mon.eq(take(node.iterkeys()), keys, 'keys', 'iterkeys()')
        mon.eq(len(node), len(keys), 'len', 'length')
        mon.true(ident_pairs(take(node.items()), exp), 'items', 'items()', take(node.items()), 'expected', exp)
        mon.true(ident_pairs(take(node.iteritems()), exp), 'items', 'iteritems()')
        vals = take(node.values())
        mon.true(len(vals) == len(exp) and all(x is y[1] for x, y in zip(vals, exp)), 'values', 'values()')
        for k, v in exp:
            mon.true(node[k] is v and k in node and node.get(k) is v, 'item', 'item', k)
        for r in real:
            if fwd(r) is None:
                mon.ev('hidden')
                if kind in ('strict', 'empty', 'listed', 'quiet') and back(r) is None:
                    mon.true(r not in node, 'whitelist', 'unlisted key', r, 'is a member')
                    raises(mon, KeyError, 'whitelist', 'unlisted key {!r}'.format(r), lambda: node[r])
        if kind == 'empty':
            mon.ev('empty-aliaser')
            mon.eq(len(node), 0, 'whitelist', 'length with an aliaser listing no key')
        mon.eq(take(other), [], 'shared', 'keys of another node')

    def named(e, key):
        mon.true(e.args and (e.args[0] == key or (isinstance(e.args[0], str) and key in e.args[0])), 'error-key',
                 'error for key', key, 'is', e)

    mutable = cfg['cls'] != 'cached'
    for op, a, b, c, d in case['ops']:
        r = pick(REAL[:8], a)
        k = fwd(r)
        mon.note(op, 'real', r, 'alias', k, 'kind', kind)
        if op == 'switch':
            # the aliaser is exchanged
            if cfg['cls'] == 'cached':
                continue
            kind = cfg['kind2'] if kind == cfg['kind'] else cfg['kind']
            obj, fwd, back = aliaser(kind, cfg)
            node.aliaser = obj
            mon.ev('changed-aliaser')
            for x in list(real):
                if collides(x):
                    del node.below[x]
                    del real[x]
            check()
            continue
        if collides(r):
            continue
        if k is not None and d // 16 % 4 == 0 and op in ('get', 'in', 'del', 'pop', 'detach', 'missing'):
            # an equal text
            mon.ev('text-keys')
            k = Text(k)
        if op == 'below-set' and mutable:
            mon.ev('below')
            v = value(b)
            node.below[r] = v
            real[r] = v
        elif op == 'below-del' and mutable and r in real:
            mon.ev('below')
            del node.below[r]
            del real[r]
        elif op == 'foreign':
            # keys which are no alias
            x = pick([r, 'p-', '-s', 'nokey', 'p-' + r, r + '-s', 'q', r + '!'], b)
            if back(x) is not None or kind == 'loose' or (kind == 'chaindict' and x[:1] == 'q'):
                continue
            mon.ev('refused')
            before = list(node.below.items())
            v = value(c)
            fns = [lambda: node[x], lambda: node.__setitem__(x, v), lambda: node.__delitem__(x),
                   lambda: node.pop(x), lambda: node.update([(x, v)]), lambda: node.setdefault(x, v)]
            e = raises(mon, KeyError, 'foreign', 'foreign key {!r}'.format(x), pick(fns, d))
            if kind not in ('both', 'chain', 'chaindict'):
                # chains name the key where translating it ended
                named(e, x)
            mon.true(x not in node, 'foreign', 'membership of a foreign key', x)
            mark = object()
            mon.is_(node.get(x, mark), mark, 'foreign', 'get of a foreign key')
            mon.is_(node.pop(x, mark), mark, 'foreign', 'pop of a foreign key with default')
            mon.true(ident_pairs(list(node.below.items()), before), 'foreign', 'entries after a refused operation')
            if hasattr(v, '__parent__'):
                mon.true(v.__parent__ is None and v.__name__ is None, 'foreign', 'refused node')
        elif k is None:
            # not listed: not reachable by its real name, see check()
            if back(r) is None and op == 'set' and kind in ('strict', 'listed', 'quiet', 'empty'):
                mon.ev('refused')
                named(raises(mon, KeyError, 'whitelist', 'writing an unlisted key', node.__setitem__, r, value(b)), r)
        elif op in ('set', 'update', 'setdefault'):
            v = value(b)
            if op == 'setdefault' and r in real:
                mon.is_(ok(mon, 'setdefault', 'setdefault', node.setdefault, k, v), real[r], 'setdefault', k)
            else:
                if op == 'set':
                    ok(mon, 'set', 'set', node.__setitem__, k, v)
                elif op == 'update':
                    ok(mon, 'set', 'update', node.update, [(k, v)])
                else:
                    mon.is_(ok(mon, 'set', 'setdefault', node.setdefault, k, v), v, 'setdefault', k)
                real[r] = v
        elif op == 'get':
            if r in real:
                mon.is_(ok(mon, 'get', 'item', node.__getitem__, k), real[r], 'item', k)
            else:
                mon.ev('missing')
                e = raises(mon, KeyError, 'missing', 'missing', lambda: node[k])
                mon.eq(e.args[0], k, 'error-key', 'error of a missing key')
        elif op == 'in':
            mon.eq(k in node, r in real, 'in', 'membership', k)
            mon.eq(node.has_key(k), r in real, 'in', 'has_key', k)
        elif op in ('del', 'pop', 'detach') and r in real:
            if op == 'del':
                ok(mon, 'del', 'del', node.__delitem__, k)
            elif op == 'pop' or not hasattr(node, 'detach'):
                mon.is_(ok(mon, 'del', 'pop', node.pop, k), real[r], 'pop', k)
            else:
                mon.is_(ok(mon, 'del', 'detach', node.detach, k), real[r], 'detach', k)
            del real[r]
        elif op in ('missing', 'del', 'pop') and r not in real:
            mon.ev('missing')
            fn = pick([lambda: node[k], lambda: node.__delitem__(k), lambda: node.pop(k)], b)
            e = raises(mon, KeyError, 'missing', 'missing key', fn)
            mon.eq(e.args[0], k, 'error-key', 'error of a missing key')
        elif op == 'popitem':
            exp = view()
            if exp:
                got = ok(mon, 'popitem', 'popitem', node.popitem)
                mon.true(got[0] == exp[-1][0] and got[1] is exp[-1][1], 'popitem', got, 'expected', exp[-1])
                del real[back(got[0])]
            else:
                raises(mon, KeyError, 'popitem', 'popitem of an empty view', node.popitem)
        elif op == 'clear':
            ok(mon, 'clear', 'clear', node.clear)
            for x in list(real):
                if fwd(x) is not None:
                    del real[x]
        elif op == 'refuse' and fwd('refuse') is not None:
            k = fwd('refuse')
            e = raises(mon, KeyError, 'refuse', 'refused below', node.__setitem__, k, value(b))
            mon.eq(e.args[0], k, 'error-key', 'error of a refused key')
        if c % 4 or op in ('clear', 'popitem'):
            check()
        mon.state((kind, len(real), len(view())))
    check()


class Child(VOrderedNode):
    pass


def fixed(mon):

    def many(name, make):
        real = ['r%d' % i for i in range(250)]
        al, alias = make(real)
        node = CLASSES[name]()
        node.aliaser = al
        kids = [VOrderedNode() for _ in real]
        for r, c in zip(real, kids):
            node[alias(r)] = c
        names = [alias(r) for r in real]
        mon.eq(node.keys(), names, 'many', 'keys')
        mon.true(ident_pairs(node.items(), list(zip(names, kids))), 'many', 'items')
        for r, c in zip(real, kids):
            mon.is_(node[alias(r)], c, 'many', 'child')
            raises(mon, KeyError, 'many', 'real key', node.__getitem__, r)
        for r in real[::3]:
            del node[alias(r)]
        left = [alias(r) for i, r in enumerate(real) if i % 3]
        mon.eq(node.keys(), left, 'many', 'keys')
        if hasattr(node, 'popitem'):
            while left:
                mon.eq(node.popitem()[0], left.pop(), 'many', 'popped')
        mon.eq(len(node), 0, 'many', 'length')
        mon.ev('large')

    KIND = {'dict': lambda real: (DictAliaser([('A' + r, r) for r in real]), lambda r: 'A' + r),
            'turned': lambda real: (DictAliaser([('A' + r, r) for r in reversed(real)]), lambda r: 'A' + r),
            'both': lambda real: (PrefixSuffixAliaser('p-', '-s'), lambda r: 'p-' + r + '-s')}
    for name in NAMES:
        for kind in sorted(KIND):
            yield 'many-%s-%s' % (kind, name), lambda: many(name, KIND[kind])
