"""P39: unicode aware nodes are mappings of text.

Lockstep monitor: the same node is used with keys and values given as text
and as encoded text; the reference translates with codecs of its own.
"""
from kit import *
from node.behaviors.alias import PrefixAliaser
from node.utils import node_by_path

ANCHORS = ['src/node/behaviors/common.py', 'src/node/utils.py']
RULE = ('a case is a composition with the unicode aware behavior and 10-50 operations giving keys and values as text, encoded text, bytes '
        'which are no text and other objects; non-trivial: the node showed what the reference holds after each operation')
QUICK, THOROUGH = 4000, 120000
MIN = {'views': 40000, 'encoded-set': 10000, 'encoded-get': 800, 'encoded-del': 1200, 'encoded-value': 5000, 'binary-key': 2000,
       'binary-value': 2000, 'other-key': 1000, 'other-value': 3000, 'both-forms': 20000, 'missing': 2000, 'update': 1500,
       'adopted': 2500, 'inner': 500, 'subtree': 400, 'announced': 200}
ASSUMPTIONS = ['the behavior is plumbed around all behaviors using keys; nodes do not bring encoded names of their own',
               'setdefault may return the default as it was given']


def make(*b):
    return plumbing(*b)(type('Composed', (object,), {}))


class Hooked(Behavior):
    """Records what gets down to it."""

    @plumb
    def __setitem__(_next, self, key, val):
        self.__dict__.setdefault('seen', []).append((key, val))
        _next(self, key, val)


class Derived(make(UnicodeAware, Adopt, DefaultInit, Nodify, OdictStorage)):
    """Overrides and calls the base class."""

    def __setitem__(self, key, val):
        super(Derived, self).__setitem__(key, val)

    def __getitem__(self, key):
        return super(Derived, self).__getitem__(key)


CLASSES = odict([
    ('plain', make(UnicodeAware, DefaultInit, Nodify, OdictStorage)),
    ('dict', make(UnicodeAware, DefaultInit, Nodify, DictStorage)),
    ('mapping', make(UnicodeAware, FullMapping, OdictStorage)),
    ('nodify-first', make(Nodify, UnicodeAware, OdictStorage)),
    ('adopt', make(UnicodeAware, Adopt, DefaultInit, Nodify, OdictStorage)),
    ('order', make(UnicodeAware, Adopt, Order, DefaultInit, Nodify, OdictStorage)),
    ('lifecycle', make(UnicodeAware, Lifecycle, Adopt, DefaultInit, Nodify, OdictStorage)),
    ('cache', make(UnicodeAware, Cache, Invalidate, Adopt, DefaultInit, Nodify, OdictStorage)),
    ('attributes', make(UnicodeAware, Adopt, NodeAttributes, DefaultInit, Nodify, OdictStorage)),
    ('hooked', make(UnicodeAware, Hooked, Adopt, DefaultInit, Nodify, OdictStorage)),
    ('volatile', make(UnicodeAware, Adopt, VolatileStorageInvalidate, DefaultInit, Nodify, OdictStorage)),
    ('spaces', make(UnicodeAware, Adopt, Nodespaces, DefaultInit, Nodify, OdictStorage)),
    ('twice', make(UnicodeAware, Adopt, DefaultInit, Nodify, OdictStorage)),
    ('derived', Derived),
    ('attr', make(UnicodeAware, AsAttrAccess, Adopt, DefaultInit, Nodify, OdictStorage)),
    ('validate', make(UnicodeAware, NodeChildValidate, Adopt, DefaultInit, Nodify, OdictStorage)),
    ('fallback', make(UnicodeAware, Fallback, Adopt, DefaultInit, Nodify, OdictStorage)),
])
CLASSES['alias'] = make(UnicodeAware, Alias, Adopt, DefaultInit, Nodify, OdictStorage)
CLASSES['alias'].aliaser = PrefixAliaser('ä-')
NAMES = list(CLASSES)
ORDERED = set(NAMES) - {'dict'}
TEXTS = ['a', 'b', 'ä', 'straße', '日本', '😀', '', ' ', 'a\x00b', 'name', 'k' * 80, '\u200b', '\n', 'é', 'e\u0301', '\ufeffx', '0']
BINARY = [b'\xff', b'\xe4', b'a\xc3', b'\xed\xa0\x80', b'\x80abc', b'\xfe\xff\x00a', b'\xc0\xaf']
OTHER = [0, None, ('a', b'a'), 2.5, frozenset([b'a']), True, Text('x'), bytearray]
W = {'set': 12, 'get': 6, 'del': 5, 'pop': 3, 'in': 5, 'setdefault': 3, 'update': 3, 'popitem': 1, 'clear': 1, 'missing': 3, 'subtree': 1,
     'detach': 2, 'path': 1, 'copy': 1, 'default': 2}


class OwnBytes(bytes):
    """Bytes as well."""


def gen(rng, i, tier):
    return {'cfg': {'cls': NAMES[i % len(NAMES)], 'bury': rng.randrange(R)}, 'ops': gen_ops(rng, W, 10, 50, 4)}


def text_of(x):
    """What bytes stand for; reference decoder."""
    if isinstance(x, bytes):
        try:
            return bytes(x).decode('utf-8')
        except UnicodeError:
            return x
    return x


def same(a, b):
    """Same object, or equal text or bytes of the same kind."""
    return a is b or (isinstance(a, (str, bytes)) and isinstance(b, (str, bytes)) and isinstance(a, str) == isinstance(b, str) and a == b)


def run(case, mon):
    cfg = case['cfg']
    kind = cfg['cls']
    cls = CLASSES[kind]
    node, other = cls(), cls()
    if kind != 'mapping' and bury(node, cfg['bury'], ['a', 'ä', 'b']):
        mon.ev('inner')
    nodes_only = kind == 'validate'
    real = odict()

    def form(r, d):
        """A key in one of its forms, and the key it stands for."""
        z = d % 16
        if z == 0:
            mon.ev('binary-key')
            k = pick(BINARY, r)
            return k, k
        if z == 1:
            mon.ev('other-key')
            k = pick(OTHER, r)
            return k, k
        t = pick(names, r)
        if z < 9:
            return t, t
        return (OwnBytes if z == 15 else bytes)(t.encode('utf-8')), t

    def value(c, d):
        """A value, and what is expected to be stored."""
        z = d % 8
        if nodes_only or z < 2:
            v = cls() if kind != 'mapping' else object()
            mon.ev('other-value')
            return v, v
        if z == 2:
            mon.ev('binary-value')
            v = pick(BINARY, c)
            return v, v
        if z == 3:
            mon.ev('other-value')
            v = pick([None, 0, [b'a'], (b'a',), {b'a': b'b'}, object(), bytearray(b'x')], c)
            return v, v
        t = pick(TEXTS, c) + ('' if c % 3 == 0 else str(c % 7))
        if z < 6:
            return t, t
        mon.ev('encoded-value')
        return t.encode('utf-8'), t

    def enc(k):
        return k.encode('utf-8') if isinstance(k, str) else k

    def check():
        mon.ev('views')
        keys = take(node)
        exp = list(real)
        mon.true(len(keys) == len(exp) and (all(same(x, y) for x, y in zip(keys, exp)) if kind in ORDERED else
                 all(any(same(x, y) for y in exp) for x in keys)), 'keys', 'keys are', keys, 'expected', exp)
        mon.eq(node.keys(), keys, 'keys', 'keys()')
        mon.eq(len(node), len(exp), 'len', 'length')
        for k in exp:
            v = real[k]
            mon.ev('both-forms')
            for x in ([k, enc(k)] if isinstance(k, str) else [k]):
                mon.true(same(node[x], v), 'item', 'item', x, 'is', node[x], 'expected', v)
                mon.true(x in node and node.has_key(x), 'in', 'membership of', x)
                mon.true(same(node.get(x, UNSET), v), 'get', 'get of', x, 'is', node.get(x, UNSET), 'expected', v)
            if kind not in ('mapping', 'plain', 'dict', 'nodify-first') and type(v) is cls:
                mon.ev('adopted')
                mon.true(same(v.name, k[2:] if kind == 'alias' else k) and v.parent is node, 'adopted', 'child', k, 'is named', v.name, 'below', v.parent)
        vals = take(node.values())
        mon.true(len(vals) == len(exp) and all(same(x, real[k]) for x, k in zip(vals, keys)), 'values', 'values are', vals)
        items = take(node.items())
        mon.true(len(items) == len(exp) and all(same(x, k) and same(y, real[k]) for (x, y), k in zip(items, keys)), 'items', items)
        mon.eq(take(other), [], 'shared', 'keys of another node')

    if kind == 'alias':
        # the aliases of this node
        names = ['ä-' + t for t in TEXTS]
    else:
        names = TEXTS
    spaces = kind in ('spaces', 'alias')
    for op, a, b, c, d in case['ops']:
        x, k = form(a, b)
        if spaces and not isinstance(k, str) or kind == 'alias' and k not in names:
            # keys of nodespaces and aliases are texts
            continue
        if k is None and kind in ('lifecycle', 'attributes'):
            continue
        if any(k == y and not same(k, y) and k is not y for y in real):
            # equal keys of different types
            continue
        given = isinstance(x, bytes) and isinstance(k, str)
        mon.note(op, x, 'stands for', k)
        v, stored = value(c, d)
        if op in ('set', 'update', 'setdefault'):
            if given:
                mon.ev('encoded-set')
            if kind == 'hooked':
                node.__dict__.pop('seen', None)
            if op == 'set':
                ok(mon, 'set', 'set', node.__setitem__, x, v)
            elif op == 'update':
                mon.ev('update')
                how = d // 8 % 4
                if how == 0:
                    ok(mon, 'set', 'update', node.update, [(x, v)])
                elif how == 1:
                    ok(mon, 'set', 'update', node.update, {x: v})
                elif how == 2:
                    # both forms of one key: the later one counts
                    w, w2 = value(c + 1, d // 32)
                    ok(mon, 'set', 'update', node.update, [(enc(k), w), (k, v)] if isinstance(k, str) else [(x, w), (x, v)])
                else:
                    src = odict()
                    src[x] = v
                    ok(mon, 'set', 'update', node.update, src)
            else:
                res = ok(mon, 'set', 'setdefault', node.setdefault, x, v)
                exp = real[k] if k in real else stored
                mon.true(same(res, exp) or (k not in real and same(res, v)), 'setdefault', 'returned', res, 'expected', exp)
                if k in real:
                    stored = real[k]
            if kind == 'hooked' and 'seen' in node.__dict__:
                mon.ev('announced')
                sk, sv = node.seen[-1]
                mon.true(same(sk, k) and same(sv, stored), 'inside', 'inner behaviors got', (sk, sv), 'expected', (k, stored))
            real[k] = stored
        elif op == 'get' and k in real:
            if given:
                mon.ev('encoded-get')
            mon.true(same(ok(mon, 'get', 'item', node.__getitem__, x), real[k]), 'item', 'item', x, 'is', node[x], 'expected', real[k])
            if kind == 'attr' and isinstance(k, str) and k not in ('name', '') and k.isidentifier():
                mon.true(same(getattr(node.as_attribute_access(), k), real[k]), 'attr', 'attribute', k)
        elif op in ('del', 'pop', 'detach') and k in real:
            if given:
                mon.ev('encoded-del')
            if op == 'del':
                ok(mon, 'del', 'del', node.__delitem__, x)
            elif op == 'pop' or not hasattr(node, 'detach') or type(real[k]) is not cls:
                res = ok(mon, 'del', 'pop', node.pop, x)
                mon.true(same(res, real[k]), 'pop', 'popped', res, 'expected', real[k])
            else:
                mon.is_(ok(mon, 'del', 'detach', node.detach, x), real[k], 'detach', k)
            del real[k]
        elif op == 'in':
            mon.eq(x in node, k in real, 'in', 'membership of {!r}'.format(x))
        elif op in ('missing', 'del', 'pop', 'get') and k not in real and kind != 'fallback':
            mon.ev('missing')
            fn = pick([lambda: node[x], lambda: node.__delitem__(x), lambda: node.pop(x)], d)
            raises(mon, KeyError, 'missing', 'missing key {!r}'.format(x), fn)
        elif op == 'default' and k not in real:
            mark = object()
            mon.is_(node.get(x, mark), mark, 'default', 'get of a missing key')
            mon.is_(node.pop(x, mark), mark, 'default', 'pop of a missing key')
            mon.is_(node.pop(x, b'mark'), b'mark', 'default', 'pop of a missing key with bytes as default')
        elif op == 'popitem':
            if real:
                gk, gv = ok(mon, 'popitem', 'popitem', node.popitem)
                mon.true(any(same(gk, y) and same(gv, z) for y, z in real.items()), 'popitem', (gk, gv))
                if kind in ORDERED:
                    mon.true(same(gk, list(real)[-1]), 'popitem', 'last key is', gk, 'expected', list(real)[-1])
                del real[gk]
            else:
                raises(mon, KeyError, 'popitem', 'popitem of an empty node', node.popitem)
        elif op == 'clear':
            ok(mon, 'clear', 'clear', node.clear)
            real.clear()
        elif op == 'subtree' and kind != 'mapping':
            # a subtree built with encoded keys, looked up with either form
            mon.ev('subtree')
            way = [pick(names[:6], z) for z in (a, c, d)]
            top = at = cls()
            for n in way:
                at[n.encode('utf-8')] = cls()
                at = at[n]
            for path in (way, [n.encode('utf-8') for n in way], [way[0], way[1].encode('utf-8'), way[2]]):
                mon.is_(ok(mon, 'path', 'path lookup', node_by_path, top, path), at, 'path', path)
        elif op == 'path' and kind not in ('mapping', 'spaces') and k in real and type(real[k]) is cls:
            mon.is_(node_by_path(node, [x]), real[k], 'path', x)
        elif op == 'copy' and kind in ('plain', 'adopt', 'order', 'hooked', 'dict'):
            dup = ok(mon, 'copy', 'deepcopy', node.deepcopy)
            mon.eq(take(dup), take(node), 'copy', 'keys of the copy')
            if isinstance(x, bytes):
                w = cls()
                dup[x] = w
                mon.is_(dup[k], w, 'copy', 'item of the copy')
                mon.is_(dup[x], w, 'copy', 'item of the copy')
        if c % 3 or op in ('clear', 'popitem'):
            check()
        mon.state((kind, len(real), sum(isinstance(z, bytes) for z in real)))
    check()
