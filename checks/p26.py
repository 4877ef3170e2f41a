"""P26: attributes and other nodespaces stay separate from children.

Lockstep monitor with three reference mappings per node: children, nodespaces
and attributes; after operations on any of them the views of all are compared.
"""
from kit import *
from node.utils import AttributeAccess

ANCHORS = ['src/node/behaviors/nodespace.py', 'src/node/behaviors/attributes.py']
RULE = ('a case is up to 10 nodes with nodespaces and attributes in a few trees and 15-60 operations on children, reserved '
        'keys and attributes; non-trivial: the three views of every node agreed with the reference')
QUICK, THOROUGH = 3000, 80000
MIN = {'child': 15000, 'reserved': 10000, 'attr': 15000, 'views': 50000, 'attrs-created': 5000, 'replaced': 500,
       'missing': 3000, 'border-keys': 3000, 'bulk': 3000, 'reused-space': 500}
ASSUMPTIONS = ['keys are text', 'the own children nodespace is not set or deleted']


def make(*b, **dct):
    return plumbing(*b)(type('Composed', (object,), dct))


class MyAttributes(NodeAttributes):
    pass


@plumbing(Adopt, Nodify, DictStorage)
class OtherAttributes(object):

    def __init__(self, name=None, parent=None):
        self.__name__ = name
        self.__parent__ = parent


TYPES = {
    'attributed': (AttributedNode, False),
    'node': (Node, False),
    'vnode': (VNode, True),
    'plain': (make(Nodespaces, Attributes, Adopt, DefaultInit, Nodify, OdictStorage), True),
    'dict': (make(Nodespaces, Attributes, Adopt, DefaultInit, Nodify, DictStorage), True),
    'inside': (make(Adopt, Nodespaces, Attributes, DefaultInit, Nodify, OdictStorage), True),
    'factory': (make(Nodespaces, Adopt, Attributes, DefaultInit, Nodify, OdictStorage,
                     attributes_factory=MyAttributes), True),
    'other': (make(Nodespaces, Adopt, Attributes, DefaultInit, Nodify, OdictStorage,
                   attributes_factory=OtherAttributes), True),
    'order': (make(Nodespaces, Attributes, Adopt, Order, DefaultInit, Nodify, OdictStorage), False),
    'access': (make(Nodespaces, Adopt, Attributes, DefaultInit, Nodify, OdictStorage,
                    attribute_access_for_attrs=True), True),
    'cached': (make(Nodespaces, Attributes, Adopt, Cache, Invalidate, DefaultInit, Nodify, OdictStorage), True),
    'spaces': (make(Nodespaces, Adopt, DefaultInit, Nodify, OdictStorage), True),
    'lifecycle': (make(Nodespaces, Attributes, Adopt, Lifecycle, DefaultInit, Nodify, OdictStorage), True),
    'validate': (make(NodeChildValidate, Nodespaces, Attributes, Adopt, DefaultInit, Nodify, OdictStorage), False),
}
NAMES = sorted(TYPES)
CHILD = ['a', 'b', '__a', 'a__', '_a_', '__a_', '_a__', 'attrs', '_', 'name', '', 'x__y', 'ä', 'l' * 70, '__ä', 'A b', Text('text')]
RESERVED = ['__a__', '__b__', '__my__', '____', '__x y__', '_____', '__', '___', '__ä__', '__A\tb__', '__' + 'l' * 70 + '__', Text('__text__'), '____x____', '__a__b__', '____y__']
W = {'set': 12, 'del': 5, 'pop': 2, 'popitem': 1, 'clear': 1, 'update': 3, 'setdefault': 2, 'get': 5, 'rset': 10,
     'rdel': 4, 'rpop': 2, 'rget': 5, 'rsetdefault': 2, 'aset': 14, 'adel': 5, 'aclear': 1, 'aupdate': 2, 'areplace': 1,
     'adrop': 1, 'missing': 3, 'new': 2, 'edit-space': 3, 'novalue': 2, 'apop': 2, 'mixed': 2}


def gen(rng, i, tier):
    return {'cfg': {'type': NAMES[i % len(NAMES)], 'mood': rng.choice((None, None) + MOODS), 'bury': rng.randrange(R)}, 'ops': gen_ops(rng, W, 15, 60, 5)}


def raw(attrs):
    return object.__getattribute__(attrs, 'context') if isinstance(attrs, AttributeAccess) else attrs


def run(case, mon):
    cls, values = TYPES[case['cfg']['type']]
    mood = case['cfg']['mood']
    has_attrs = case['cfg']['type'] != 'spaces'
    order = case['cfg']['type'] != 'dict'
    nodes, kids, spaces, attrs, owner = [], [], [], [], []
    loose = []

    def new():
        nodes.append(moody(cls, mood)())
        kids.append(odict())
        spaces.append({})
        attrs.append(None)
        return len(nodes) - 1

    def get_attrs(i):
        a = raw(nodes[i].attrs)
        mon.is_(raw(nodes[i].attrs), a, 'attrs', 'read twice')
        if attrs[i] is None:
            mon.ev('attrs-created')
            attrs[i] = {}
            for j in range(len(nodes)):
                mon.true(spaces[j].get('__attrs__') is not a, 'attrs', 'shared by two nodes')
            spaces[i]['__attrs__'] = a
            mon.eq(take(a), [], 'attrs', 'new attributes are empty')
        mon.is_(a, spaces[i]['__attrs__'], 'attrs', 'attributes of node', i)
        mon.true(a.__name__ == '__attrs__' and a.__parent__ is nodes[i], 'attrs', 'location of the attributes',
                 a.__name__, a.__parent__)
        return a

    def compare(i):
        n = nodes[i]
        mon.ev('views')
        exp = list(kids[i].items())
        if order:
            mon.true(take(n) == list(kids[i]), 'children', 'keys', take(n), 'expected', list(kids[i]))
            mon.true(ident_pairs(list(n.items()), exp), 'children', 'items', list(n.items()), 'expected', exp)
        else:
            mon.true(sorted(take(n)) == sorted(kids[i]), 'children', 'keys', take(n), 'expected', list(kids[i]))
            mon.true(all(n[k] is v for k, v in exp), 'children', 'values')
        mon.eq(len(n), len(exp), 'children', 'length')
        for k in RESERVED + ['__attrs__']:
            got = n.get(k, spaces)
            mon.is_(got, spaces[i].get(k, spaces), 'nodespace', k, 'of node', i)
        for k in CHILD:
            mon.is_(n.get(k, spaces), kids[i].get(k, spaces), 'children', 'child', k, 'of node', i)
            mon.eq(k in n, k in kids[i], 'children', 'test for', k)
        sp = n.nodespaces
        mon.is_(sp['__children__'], n, 'nodespace', '__children__')
        mon.is_(n['__children__'], n, 'nodespace', '__children__')
        mon.eq(sorted(sp), sorted(list(spaces[i]) + ['__children__']), 'nodespace', 'names of the nodespaces')
        for k, v in spaces[i].items():
            mon.is_(sp[k], v, 'nodespace', k)
            mon.true(v.__name__ == k and v.__parent__ is n, 'nodespace', 'location of', k, 'is', v.__name__,
                     v.__parent__)
        if attrs[i] is not None:
            a = get_attrs(i)
            mon.eq(sorted(take(a)), sorted(attrs[i]), 'attrs', 'names')
            for k, v in attrs[i].items():
                mon.is_(a[k], v, 'attrs', 'value of', k)

    def kid(r):
        if values and r % 4 == 0:
            return fresh_value(r >> 2)
        return moody(cls, mood if r // 4 % 2 else None)()

    def space(r):
        return moody([cls, VOrderedNode, MyAttributes][r % 3], mood if r // 3 % 2 else None)()

    for _ in range(3):
        new()
    for op, x, b, c, d, e in case['ops']:
        i = x % len(nodes)
        n = nodes[i]
        k = pick(CHILD, b)
        r = pick(RESERVED, b)
        mon.note(op, i, k, r)
        mon.ev('border-keys', k in ('__a', 'a__', '_') or r in ('__', '___', '____'))
        if op in ('set', 'setdefault', 'update', 'mixed'):
            mon.ev('child')
            v = kid(c)
            if op == 'set':
                if k in kids[i] and case['cfg']['type'] in ('node', 'vnode', 'attributed') and d % 2:
                    continue
                ok(mon, 'child', 'set', n.__setitem__, k, v)
                kids[i][k] = v
            elif op == 'setdefault':
                got = ok(mon, 'child', 'setdefault', n.setdefault, k, v)
                kids[i].setdefault(k, v)
                mon.is_(got, kids[i][k], 'child', 'setdefault')
            elif op == 'update':
                mon.ev('bulk')
                ok(mon, 'child', 'update', n.update, [(k, v)])
                kids[i][k] = v
            else:
                # both kinds of keys at once
                mon.ev('bulk')
                s = space(d)
                ok(mon, 'child', 'update', n.update, odict([(r, s), (k, v)]))
                spaces[i][r] = s
                kids[i][k] = v
        elif op in ('del', 'pop'):
            mon.ev('child')
            if not kids[i]:
                continue
            k = pick(list(kids[i]), b)
            if op == 'del':
                ok(mon, 'child', 'del', n.__delitem__, k)
            else:
                mon.is_(ok(mon, 'child', 'pop', n.pop, k), kids[i][k], 'child', 'pop')
            del kids[i][k]
        elif op == 'popitem':
            mon.ev('child')
            if not kids[i]:
                raises(mon, KeyError, 'missing', 'popitem', n.popitem)
            else:
                k, v = ok(mon, 'child', 'popitem', n.popitem)
                mon.true(k in kids[i] and kids[i].pop(k) is v, 'child', 'popitem gave', k)
        elif op == 'clear':
            mon.ev('bulk')
            ok(mon, 'child', 'clear', n.clear)
            kids[i].clear()
        elif op == 'get':
            mon.is_(n.get(k), kids[i].get(k), 'child', 'get')
        elif op == 'rset':
            mon.ev('reserved')
            s = space(c)
            if loose and d % 3 == 0:
                # one which was in use before, maybe elsewhere and under another name
                s = loose.pop(c % len(loose))
                mon.ev('reused-space')
            ok(mon, 'nodespace', 'set', n.__setitem__, r, s)
            spaces[i][r] = s
        elif op == 'rsetdefault':
            mon.ev('reserved')
            s = space(c)
            got = ok(mon, 'nodespace', 'setdefault', n.setdefault, r, s)
            spaces[i].setdefault(r, s)
            mon.is_(got, spaces[i][r], 'nodespace', 'setdefault')
        elif op in ('rdel', 'rpop'):
            mon.ev('reserved')
            have = sorted(z for z in spaces[i] if z != '__attrs__')
            if have:
                r = pick(have, b)
                if op == 'rdel':
                    ok(mon, 'nodespace', 'del', n.__delitem__, r)
                else:
                    mon.is_(ok(mon, 'nodespace', 'pop', n.pop, r), spaces[i][r], 'nodespace', 'pop')
                loose.append(spaces[i].pop(r))
        elif op == 'rget':
            mon.ev('reserved')
            if r in spaces[i]:
                mon.is_(ok(mon, 'nodespace', 'get', n.__getitem__, r), spaces[i][r], 'nodespace', r)
        elif op == 'edit-space':
            # editing a nodespace changes nothing else
            have = [s for z, s in spaces[i].items() if isinstance(s, (VOrderedNode, MyAttributes))
                    and z != '__attrs__']
            if have:
                s = pick(have, b)
                s['k%d' % (c % 3)] = c
        elif op == 'missing':
            mon.ev('missing')
            if k not in kids[i]:
                raises(mon, KeyError, 'missing', 'child', pick([n.__getitem__, n.__delitem__, n.pop], c), k)
            if r not in spaces[i]:
                raises(mon, KeyError, 'missing', 'nodespace', pick([n.__getitem__, n.__delitem__, n.pop], d), r)
            if has_attrs and attrs[i] is not None:
                a = get_attrs(i)
                raises(mon, KeyError, 'missing', 'attribute', pick([a.__getitem__, a.__delitem__, a.pop], e), 'no')
        elif op == 'novalue' and case['cfg']['type'] in ('attributed', 'node', 'validate'):
            raises(mon, ValueError, 'validate', 'plain child', n.__setitem__, k, 1)
        elif op == 'new':
            if len(nodes) < 10:
                j = new()
                if d % 2 and k not in kids[i]:
                    n[k] = nodes[j]
                    kids[i][k] = nodes[j]
        elif not has_attrs or op == 'novalue':
            pass
        elif op == 'aset':
            mon.ev('attr')
            a = get_attrs(i)
            z = pick(CHILD + RESERVED, d)
            v = fresh_value(c)
            if isinstance(nodes[i].attrs, AttributeAccess) and c % 3:
                ok(mon, 'attrs', 'set', nodes[i].attrs.__setitem__, z, v)
            else:
                ok(mon, 'attrs', 'set', a.__setitem__, z, v)
            attrs[i][z] = v
        elif op in ('adel', 'apop'):
            mon.ev('attr')
            a = get_attrs(i)
            if attrs[i]:
                z = pick(sorted(attrs[i]), d)
                if op == 'adel':
                    ok(mon, 'attrs', 'del', a.__delitem__, z)
                else:
                    mon.is_(ok(mon, 'attrs', 'pop', a.pop, z), attrs[i][z], 'attrs', 'pop')
                del attrs[i][z]
        elif op == 'aclear':
            mon.ev('attr')
            ok(mon, 'attrs', 'clear', get_attrs(i).clear)
            attrs[i].clear()
        elif op == 'aupdate':
            mon.ev('attr')
            new_ = {z: fresh_value(c + m) for m, z in enumerate((CHILD + RESERVED)[d % 8:d % 8 + 3])}
            ok(mon, 'attrs', 'update', get_attrs(i).update, new_)
            attrs[i].update(new_)
        elif op == 'areplace':
            # other attributes are put in place
            mon.ev('replaced')
            a = MyAttributes()
            a['first'] = 1
            ok(mon, 'nodespace', 'set', n.__setitem__, '__attrs__', a)
            spaces[i]['__attrs__'] = a
            attrs[i] = {'first': 1}
        elif op == 'adrop':
            mon.ev('replaced')
            if '__attrs__' in spaces[i]:
                ok(mon, 'nodespace', 'del', n.__delitem__, '__attrs__')
                del spaces[i]['__attrs__']
                attrs[i] = None
        if e % 3 == 0:
            compare(i)
        if e % 11 == 0:
            for j in range(len(nodes)):
                compare(j)
        mon.state((case['cfg']['type'], op, len(kids[i]), len(spaces[i])))
    for j in range(len(nodes)):
        compare(j)
