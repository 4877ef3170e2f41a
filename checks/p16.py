"""P16: attribute edits announce exactly one modified event of the owning node.

Trace checker: a handler for all object events logs; after every operation the
log must hold exactly what the reference history of attribute edits says, and
at the time of each event the change is visible.
"""
import copy
import zope.component
from kit import *
from node.events import NodeModifiedEvent
from node.interfaces import INodeModifiedEvent
from zope.interface.interfaces import IObjectEvent

ANCHORS = ['src/node/behaviors/lifecycle.py', 'src/node/behaviors/attributes.py']
RULE = ('a case is a composition with attribute lifecycle, up to 8 nodes in one or more trees and 12-60 edits and reads '
        'of their attributes with faults injected; non-trivial: the event log agreed with the edits')
QUICK, THOROUGH = 2500, 60000
MIN = {'modified': 20000, 'silent': 10000, 'failed': 4000, 'after-failed-detach': 300, 'clear': 500, 'copies': 200,
       'reserved': 500, 'access': 1000, 'moved': 500}
ASSUMPTIONS = ['listeners do not raise', 'attributes are not edited from within a detach of their owner']


class Boom(Exception):
    pass


FAULT = {'where': None}


class FaultyInside(Behavior):

    @plumb
    def __setitem__(_next, self, key, val):
        if FAULT['where'] == 'below':
            raise Boom()
        _next(self, key, val)

    @plumb
    def __delitem__(_next, self, key):
        if FAULT['where'] == 'below':
            raise Boom()
        _next(self, key)


class FaultyOutside(Behavior):

    @plumb
    def __setitem__(_next, self, key, val):
        if FAULT['where'] == 'above':
            raise Boom()
        _next(self, key, val)

    @plumb
    def __delitem__(_next, self, key):
        if FAULT['where'] == 'above':
            raise Boom()
        _next(self, key)


class FaultyChildren(Behavior):

    @plumb
    def __delitem__(_next, self, key):
        if FAULT['where'] == 'child':
            raise Boom()
        _next(self, key)


class CustomModified(NodeModifiedEvent):
    pass


@plumbing(FaultyOutside, AttributesLifecycle, FaultyInside)
class Attrs(NodeAttributes):
    pass


@plumbing(NodeChildValidate, Adopt, FaultyOutside, AttributesLifecycle, FaultyInside, Nodify, DictStorage)
class DictAttrs(object):
    allow_non_node_childs = True

    def __init__(self, name=None, parent=None):
        self.__name__ = name
        self.__parent__ = parent


@plumbing(FaultyOutside, AttributesLifecycle, Alias, FaultyInside)
class AliasAttrs(NodeAttributes):
    pass


@plumbing(Order, FaultyOutside, AttributesLifecycle, FaultyInside)
class OrderAttrs(NodeAttributes):
    pass




class Derived(Attrs):
    pass


def make(attrs, base=None, access=False, behaviors=(), **dct):
    dct.update(attributes_factory=attrs, attribute_access_for_attrs=access)
    if base is None:
        return plumbing(Nodespaces, Attributes, FaultyChildren, Lifecycle, *behaviors + (
            Adopt, DefaultInit, Nodify, OdictStorage))(type('Composed', (object,), dct))
    return plumbing(FaultyChildren, Lifecycle, *behaviors)(type('Composed', (base,), dct))


CUSTOM = dict(make(Attrs).events, modified=CustomModified)
TYPES = {
    'plain': make(Attrs),
    'dict': make(DictAttrs),
    'derived': make(Derived),
    'alias': make(AliasAttrs),
    'order': make(OrderAttrs),
    'node': make(Attrs, Node),
    'attributed': make(Attrs, AttributedNode),
    'access': make(Attrs, access=True),
    'access-node': make(Attrs, AttributedNode, access=True),
    'custom': make(Attrs, events=CUSTOM),
    'reference': make(Attrs, behaviors=(Reference,)),
    'noflag': make(Attrs, behaviors=(Cache, Invalidate)),
}
NAMES = sorted(TYPES)
W = {'set': 14, 'over': 5, 'del': 5, 'pop': 3, 'popitem': 2, 'clear': 2, 'update': 3, 'setdefault': 3, 'missing': 4,
     'fault': 6, 'read': 4, 'child': 3, 'unchild': 2, 'faildetach': 3, 'reserved': 2, 'sub': 3, 'copy': 1, 'same': 2,
     'listener': 2, 'parentlater': 1, 'order': 1, 'swap': 2}


def gen(rng, i, tier):
    return {'cfg': {'type': NAMES[i % len(NAMES)], 'keys': rng.choice([1, 3, 6]),
                    'mood': rng.choice((None, None) + MOODS), 'style': style(rng),
                    'bury': rng.randrange(R)}, 'ops': gen_ops(rng, W, 12, 60, 5)}


class Watch(object):

    def __init__(self, mon):
        self.mon = mon
        self.log = []
        self.bad = []
        self.visible = None
        self.react = None
        self.other = False

    def __call__(self, ob, event):
        if not INodeModifiedEvent.providedBy(event):
            if not self.other:
                self.bad.append('{} announced'.format(type(event).__name__))
            return
        self.mon.ev('modified')
        self.log.append(event)
        if event.object is not ob:
            self.bad.append('handler called for {}'.format(short(ob)))
        if self.visible is not None:
            attrs, key, val = self.visible
            now = attrs.get(key, MISSING)
            if now is not val:
                self.bad.append('attribute {!r} is {} when announced, not {}'.format(key, short(now), short(val)))
            if (key in take(attrs)) is (val is MISSING):
                self.bad.append('attribute {!r} listed: {} when announced'.format(key, key in take(attrs)))
        if self.react is not None:
            react, self.react = self.react, None
            react()


MISSING = object()


def run(case, mon):
    gsm = zope.component.getGlobalSiteManager()
    watch = Watch(mon)
    gsm.registerHandler(watch, (None, IObjectEvent))
    try:
        play(case, mon, watch)
    finally:
        gsm.unregisterHandler(watch, (None, IObjectEvent))
        FAULT.update(where=None)


def raw(attrs):
    """The mapping behind attribute access."""
    return attrs if hasattr(type(attrs), 'items') else object.__getattribute__(attrs, 'context')


class Quiet(object):

    def __init__(self, watch):
        self.watch = watch

    def __enter__(self):
        self.watch.other = True

    def __exit__(self, *args):
        self.watch.other = False


def play(case, mon, watch):
    cfg = case['cfg']
    cls = moody(TYPES[cfg['type']], cfg['mood'])
    custom = cfg['type'] == 'custom'
    access = cfg['type'].startswith('access')
    quiet = Quiet(watch)
    nodes, ref = [], []
    spell = STYLES[cfg.get('style')]
    expected = []

    def add(n):
        nodes.append(n)
        ref.append(odict())

    def compare(what):
        if watch.bad:
            raise Violation('event', '{}: {}'.format(what, watch.bad))
        got = [e.object for e in watch.log]
        if len(got) != len(expected) or any(g is not e for g, e in zip(got, expected)):
            raise Violation('events', '{}: {} modified events of {} but {} expected of {}'.format(
                what, len(got), [name(x) for x in got], len(expected), [name(x) for x in expected]))
        if custom and any(type(e) is not CustomModified for e in watch.log):
            raise Violation('event', 'configured event class not used')
        mon.ev('comparisons')
        if not expected:
            mon.ev('silent')
        del watch.log[:]
        del expected[:]
        watch.visible = None

    def name(o):
        for n, x in enumerate(nodes):
            if x is o:
                return 'node%d' % n
        return short(o, 60)

    def value(r, i):
        v = fresh_value(r)
        if r % 11 == 3:
            with quiet:
                v = VOrderedNode()
        elif r % 11 == 4:
            # a node of the same kind, with attributes of its own
            with quiet:
                v = cls()
            add(v)
        return v

    with quiet:
        for x in range(3):
            add(cls())
        nodes[1]['c'] = nodes[2]
        if bury(nodes[0], cfg.get('bury', 0)):
            mon.ev('inner')
    for op, a, b, c, d, e in case['ops']:
        i = a % len(nodes)
        n = nodes[i]
        m = ref[i]
        attrs = raw(n.attrs)
        k = spell('k%d' % (b % cfg['keys']))
        mon.note(op, i, k)
        if len(nodes) > 10 and op in ('set', 'setdefault', 'over', 'update', 'listener'):
            v = c
        elif op in ('set', 'setdefault', 'over', 'update', 'listener'):
            v = value(c, i)
        if op in ('set', 'over'):
            if op == 'over' and m:
                k = pick(list(m), b)
            if access and d % 3:
                mon.ev('access')
                view = n.attrs
                watch.visible = (attrs, k, v)
                expected.append(n)
                if d % 3 == 1 and k.startswith('k'):
                    ok(mon, 'set', 'attribute', setattr, view, k, v)
                else:
                    ok(mon, 'set', 'item', view.__setitem__, k, v)
            else:
                watch.visible = (attrs, k, v)
                expected.append(n)
                ok(mon, 'set', 'attribute', attrs.__setitem__, k, v)
            m[k] = v
        elif op == 'same':
            # setting the value it already has is an edit too
            if not m:
                continue
            k = pick(list(m), b)
            expected.append(n)
            ok(mon, 'set', 'attribute again', attrs.__setitem__, k, m[k])
        elif op == 'update':
            new = odict([('u%d' % x, c + x) for x in range(d // 2 % 4)])
            if d % 2:
                new[k] = v
            ok(mon, 'set', 'update', attrs.update, new)
            for x in new:
                m[x] = new[x]
                expected.append(n)
            if d % 3 == 0:
                ok(mon, 'set', 'update', lambda: attrs.update(z=d))
                m['z'] = d
                expected.append(n)
        elif op == 'setdefault':
            if k not in m:
                expected.append(n)
                m[k] = v
                watch.visible = (attrs, k, v)
            got = ok(mon, 'set', 'setdefault', attrs.setdefault, k, v)
            mon.is_(got, m[k], 'result', 'setdefault')
        elif op in ('del', 'pop'):
            if not m:
                continue
            k = pick(list(m), b)
            watch.visible = (attrs, k, MISSING)
            expected.append(n)
            if op == 'pop':
                mon.is_(ok(mon, 'delete', 'pop', attrs.pop, k), m[k], 'result', 'pop')
            elif access and d % 2:
                mon.ev('access')
                ok(mon, 'delete', 'del', n.attrs.__delitem__, k)
            else:
                ok(mon, 'delete', 'del', attrs.__delitem__, k)
            del m[k]
        elif op == 'popitem':
            if m:
                expected.append(n)
                k, v = ok(mon, 'delete', 'popitem', attrs.popitem)
                mon.is_(v, m.pop(k, MISSING), 'result', 'popitem')
            else:
                raises(mon, KeyError, 'missing', 'popitem', attrs.popitem)
        elif op == 'clear':
            mon.ev('clear')
            expected.extend([n] * len(m))
            ok(mon, 'delete', 'clear', attrs.clear)
            m.clear()
        elif op == 'missing':
            mon.ev('failed')
            how = pick([attrs.__delitem__, attrs.pop, attrs.__getitem__], c)
            raises(mon, KeyError, 'missing', 'attribute', how, 'nokey')
            mon.eq(attrs.pop('nokey', 7), 7, 'missing', 'pop with default')
            mon.is_(attrs.get('nokey'), None, 'missing', 'get')
        elif op == 'fault':
            mon.ev('failed')
            how = pick(['set', 'del', 'pop', 'clear', 'update', 'setdefault'], d)
            if not m and how in ('del', 'pop', 'clear'):
                how = 'set'
            args = {'set': (k, 1), 'del': (pick(list(m) or [0], c),), 'pop': (pick(list(m) or [0], c),), 'clear': (),
                    'update': ({k: 1},), 'setdefault': ('fresh%d' % d, 1)}[how]
            fn = {'set': attrs.__setitem__, 'del': attrs.__delitem__, 'pop': attrs.pop, 'clear': attrs.clear,
                  'update': attrs.update, 'setdefault': attrs.setdefault}[how]
            FAULT.update(where=pick(['below', 'above'], e))
            try:
                raises(mon, Boom, 'fault', how, fn, *args)
            finally:
                FAULT.update(where=None)
        elif op == 'read':
            view = n.attrs
            mon.is_(raw(view), attrs, 'attrs', 'read again')
            take(attrs), attrs.get(k), attrs.items(), list(attrs.values()), len(attrs), k in attrs, repr(attrs)
            n['__attrs__'], n.nodespaces, n.attributes, bool(attrs)
            n.treerepr()
            attrs.treerepr()
        elif op == 'child':
            if len(nodes) > 10:
                continue
            with quiet:
                x = cls()
                add(x)
                n['c%d' % len(nodes)] = x
        elif op == 'unchild':
            ks = take(n)
            if ks:
                with quiet:
                    n.detach(pick(ks, c)) if d % 2 else n.__delitem__(pick(ks, c))
        elif op == 'faildetach':
            mon.ev('failed')
            mon.ev('after-failed-detach')
            with quiet:
                ks = take(n)
                if ks and c % 2:
                    FAULT.update(where='child')
                    try:
                        raises(mon, Boom, 'fault', 'detach', n.detach, pick(ks, c))
                    finally:
                        FAULT.update(where=None)
                else:
                    raises(mon, KeyError, 'missing', 'detach', n.detach, 'nokey')
        elif op == 'reserved':
            mon.ev('reserved')
            expected.append(n)
            n['__attrs__'][k] = c
            m[k] = c
        elif op == 'sub':
            # a node kept as attribute: edits of its children announce nothing here
            subs = [v for v in m.values() if isinstance(v, VOrderedNode)]
            if not subs:
                continue
            s = pick(subs, c)
            s['x'] = VOrderedNode()
            if d % 2:
                del s['x']
        elif op == 'copy':
            if len(nodes) > 8 or cfg['type'] == 'reference':
                continue
            if any(INode.providedBy(v) for v in m.values()) or any(type(v) is type for v in m.values()):
                continue
            mon.ev('copies')
            with quiet:
                x = copy.deepcopy(n) if c % 2 else n.deepcopy()
            del watch.log[:]
            add(x)
            for z in m:
                ref[-1][z] = x.attrs[z]
            mon.true(raw(x.attrs) is not attrs, 'copy', 'attributes shared with the deep copy')
        elif op == 'listener':
            # the listener sets an attribute of another node
            j = d % len(nodes)
            if j == i:
                continue

            def react():
                raw(nodes[j].attrs)['reaction'] = e
            watch.react = react
            expected.extend([n, nodes[j]])
            ok(mon, 'set', 'attribute', attrs.__setitem__, k, v)
            m[k] = v
            ref[j]['reaction'] = e
        elif op == 'order':
            if cfg['type'] != 'order':
                continue
            ks = [z for z in m if INode.providedBy(m[z])]
            if len(ks) > 1 and ks[0] != ks[-1]:
                ok(mon, 'swap', 'swap', attrs.swap, m[ks[0]], m[ks[-1]])
                at = list(m)
                x, y = at.index(ks[0]), at.index(ks[-1])
                at[x], at[y] = at[y], at[x]
                new = odict([(z, m[z]) for z in at])
                m.clear()
                m.update(new)
                del watch.log[:]
        elif op == 'swap':
            # two nodes exchange their attributes
            j = d % len(nodes)
            if j == i:
                continue
            mon.ev('moved')
            theirs = raw(nodes[j].attrs)
            with quiet:
                ok(mon, 'move', 'attributes of another node', n.__setitem__, '__attrs__', theirs)
                ok(mon, 'move', 'attributes of another node', nodes[j].__setitem__, '__attrs__', attrs)
            ref[i], ref[j] = ref[j], ref[i]
            mon.is_(raw(n.attrs), theirs, 'move', 'attributes')
            mon.is_(raw(nodes[j].attrs), attrs, 'move', 'attributes')
        elif op == 'parentlater':
            mon.is_(attrs.__parent__, n, 'owner', 'of the attributes')
        compare(op)
        mon.state((cfg['type'], op, len(m), len(nodes)))
    for n, m in zip(nodes, ref):
        got = children(raw(n.attrs))
        if cfg['type'] == 'dict':
            mon.true(len(got) == len(m) and all(m.get(k, MISSING) is v for k, v in got), 'contents', got)
        else:
            mon.true(ident_pairs(got, list(m.items())), 'contents', 'attributes', got, 'expected', list(m.items()))
