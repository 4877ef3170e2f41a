"""P31: attribute-style access mirrors item access of the same mapping.

Lockstep monitor: a reference dictionary per underlying mapping, several
attribute access objects on the same mapping, edits through all of them.
"""
from kit import *
from node.interfaces import IAttributeAccess
from node.utils import AttributeAccess

ANCHORS = ['src/node/utils.py', 'src/node/behaviors/common.py', 'src/node/behaviors/attributes.py']
RULE = ('a case is one mapping (dictionary, node or attributes of a node) with 1-4 attribute access objects and 15-70 mixed '
        'operations; non-trivial: a value read back both ways')
QUICK, THOROUGH = 5000, 150000
MIN = {'child-missing': 5000, 'read-attr': 20000, 'read-item': 20000, 'write-attr': 15000, 'write-item': 15000, 'delete': 5000, 'missing': 15000,
       'behind': 10000, 'clash': 10000, 'several': 10000, 'child-attr': 20000, 'shadowed': 4000, 'names': 20000}
ASSUMPTIONS = ['names are text and not of the form __x__, which Python itself looks up on every object']

NAMES = ['a', 'b', 'foo', 'bar_', '_c', 'x1', 'ä', 'class', 'def']
CLASH = ['context', 'keys', 'items', 'values', 'get', 'pop', 'update', 'clear', 'copy', 'setdefault', 'name', 'parent', 'root',
         'path', 'storage', 'attrs', 'nodespaces', 'acquire', 'self', 'allow_non_node_childs', 'key', 'noderepr',
         '_storage', '__name', '_AttributeAccess__context', 'context_', '_context', 'has_key', 'detach']
ODD = ['x y', 'a.b', '', '1', 'a-b', 'é/è']
W = {'wattr': 14, 'witem': 12, 'rattr': 16, 'ritem': 14, 'ditem': 6, 'missing': 10, 'behind': 10, 'bdel': 3, 'new': 2,
     'child': 14, 'all': 4, 'hasattr': 5, 'getdefault': 4, 'bclear': 1}


@plumbing(Nodespaces, Attributes, AsAttrAccess, Adopt, DefaultInit, Nodify, OdictStorage)
class AttrNode(object):
    attribute_access_for_attrs = True


@plumbing(GetattrChildren)
class GetNode(VBaseNode):
    allow_non_node_childs = True
    own = 'own'


@plumbing(GetattrChildren)
class GetOrdered(VOrderedNode):

    @property
    def own(self):
        return 'own'

    def method(self):
        return self['a']


@plumbing(GetattrChildren, Adopt, DefaultInit, Nodify, OdictStorage)
class PlainGet(object):
    pass


def k_dict():
    d = {}
    return d, lambda: AttributeAccess(d)


def k_odict():
    d = odict()
    return d, lambda: AttributeAccess(d)


def k_as():
    n = VBaseNode()
    return n, n.as_attribute_access


def k_ordered():
    n = VOrderedNode()
    return n, n.as_attribute_access


def k_attrs():
    n = AttrNode(name='n')
    return object.__getattribute__(n.attrs, 'context'), lambda: n.attrs


def k_attributes():
    # B/C name of attrs
    n = AttrNode(name='n')
    return object.__getattribute__(n.attributes, 'context'), lambda: n.attributes


def k_attrs_on():
    n = AttributedNode(name='n')
    plain = n.attrs
    n.attribute_access_for_attrs = True
    return plain, lambda: n.attrs


def k_nodeattrs():
    a = NodeAttributes(name='a', parent=VBaseNode())
    return a, lambda: AttributeAccess(a)


def k_node():
    n = AttrNode(name='n')
    return n, n.as_attribute_access


def k_vnode():
    n = VNode(name='n')
    return n, lambda: AttributeAccess(n)


def k_unicode():
    n = UnicodeNode()
    return n, lambda: AttributeAccess(n)


def k_user():
    n = UserMapping()
    return n, lambda: AttributeAccess(n)


def k_twice():
    # attribute access on the attributes themselves
    n = AttrNode()
    inner = object.__getattribute__(n.attrs, 'context')
    return inner, lambda: AttributeAccess(n.attrs)


KINDS = [k_dict, k_odict, k_as, k_ordered, k_attrs, k_attributes, k_attrs_on, k_nodeattrs, k_node, k_vnode, k_unicode, k_user,
         k_twice]


class Value(object):

    def __eq__(self, other):
        raise TypeError('not comparable')

    __hash__ = None


def gen(rng, i, tier):
    return {'cfg': {'kind': i % len(KINDS), 'get': rng.randrange(2)}, 'ops': gen_ops(rng, W, 15, 70)}


def name_of(r):
    q = r % 10
    if q < 4:
        return NAMES[r // 10 % len(NAMES)]
    if q < 9:
        return CLASH[r // 10 % len(CLASH)]
    return ODD[r // 10 % len(ODD)]


def run(case, mon):
    kind = KINDS[case['cfg']['kind']]
    under, make = kind()
    views = [make()]
    ref = odict()
    dup = [GetNode, GetOrdered][case['cfg']['get']](name='top')
    kids = {}
    shadow = {n: None for n in dir(dup)}

    def value(r):
        if r % 6 == 0:
            return VNode() if kind is k_vnode else VOrderedNode()
        if r % 6 == 1:
            return Value()
        return fresh_value(r // 6)

    def compare(all_=False):
        mon.ev('names')
        keys = list(under.keys())
        mon.eq(sorted(keys), sorted(ref), 'mirror', 'names in the mapping')
        for v in views if all_ else views[-1:]:
            mon.true(IAttributeAccess.providedBy(v), 'mirror', 'IAttributeAccess')
            for k, x in ref.items():
                mon.is_(ok(mon, 'mirror', 'attribute ' + k, getattr, v, k), x, 'mirror', 'attribute', k)
                mon.is_(ok(mon, 'mirror', 'item ' + k, v.__getitem__, k), x, 'mirror', 'item', k)
                mon.is_(under[k], x, 'mirror', 'mapping', k)

    for op, a, b, c, d in case['ops']:
        k = name_of(b)
        v = pick(views, a)
        mon.ev('clash', k in CLASH)
        mon.ev('several', len(views) > 1)
        mon.note(op, k)
        val = value(c)
        if op in ('wattr', 'witem', 'behind'):
            if kind is k_vnode and INode.providedBy(ref.get(k)) and d % 2:
                continue
            if op == 'wattr':
                mon.ev('write-attr')
                ok(mon, 'write', 'attribute ' + k, setattr, v, k, val)
            elif op == 'witem':
                mon.ev('write-item')
                ok(mon, 'write', 'item ' + k, v.__setitem__, k, val)
            else:
                mon.ev('behind')
                under[k] = val
            ref[k] = val
            if INode.providedBy(val) and kind not in (k_dict, k_odict, k_user):
                mon.true(val.__name__ == k and val.__parent__ is under, 'write', 'location of the node', val.__name__)
        elif op == 'rattr' or op == 'getdefault':
            mon.ev('read-attr')
            if k not in ref and ref:
                k = pick(list(ref), b)
            if op == 'getdefault':
                mon.is_(ok(mon, 'read', 'getattr with default ' + k, getattr, v, k, mon), ref.get(k, mon), 'read', k)
            elif k in ref:
                mon.is_(ok(mon, 'read', 'attribute ' + k, getattr, v, k), ref[k], 'read', 'attribute', k)
                mon.nontrivial.add(hash((k, case['cfg']['kind'], len(ref))))
        elif op == 'ritem':
            mon.ev('read-item')
            if k not in ref and ref:
                k = pick(list(ref), b)
            if k in ref:
                mon.is_(ok(mon, 'read', 'item ' + k, v.__getitem__, k), ref[k], 'read', 'item', k)
        elif op == 'hasattr':
            mon.eq(hasattr(v, k), k in ref, 'read', 'hasattr', k)
        elif op == 'ditem':
            if ref:
                k = pick(list(ref), b)
                mon.ev('delete')
                ok(mon, 'delete', 'item ' + k, v.__delitem__, k)
                del ref[k]
                raises(mon, AttributeError, 'missing', 'attribute ' + k, getattr, v, k)
        elif op == 'bdel':
            if ref:
                k = pick(list(ref), b)
                mon.ev('behind')
                del under[k]
                del ref[k]
        elif op == 'bclear':
            if kind is not k_user:
                under.clear()
                ref.clear()
        elif op == 'missing':
            if k not in ref:
                mon.ev('missing')
                raises(mon, AttributeError, 'missing', 'attribute ' + k, getattr, v, k)
                raises(mon, KeyError, 'missing', 'item ' + k, v.__getitem__, k)
                raises(mon, KeyError, 'missing', 'deleting item ' + k, v.__delitem__, k)
        elif op == 'new':
            if len(views) < 4:
                views.append(make())
        elif op == 'all':
            compare(True)
        elif op == 'child':
            # attribute child access
            mon.ev('child-attr')
            how = d % 5
            if how < 2:
                if k in kids and INode.providedBy(kids[k]):
                    del dup[k]
                dup[k] = val
                kids[k] = val
            elif how == 2 and kids:
                k = pick(sorted(kids), b)
                del dup[k]
                del kids[k]
            elif how == 3:
                # setting as attribute is ordinary
                outcome(setattr, dup, 'plain', c)
                if dup.__dict__.get('plain') is not None:
                    mon.eq(dup.plain, c, 'getattr', 'own attribute')
                    mon.true('plain' not in kids or dup['plain'] is kids['plain'], 'getattr', 'item changed')
                    del dup.plain
            if 'own' not in kids:
                dup['own'] = kids['own'] = 5
            mon.eq(dup.own, 'own', 'getattr', 'class attribute wins')
            for k, x in kids.items():
                mon.is_(dup[k], x, 'getattr', 'item', k)
                if k in shadow or k in vars(dup):
                    mon.ev('shadowed')
                    if k in ('name', 'parent', 'root', 'allow_non_node_childs'):
                        mon.is_(getattr(dup, k), {'name': 'top', 'parent': None, 'root': dup,
                                                  'allow_non_node_childs': True}[k], 'getattr', 'own attribute', k)
                else:
                    mon.is_(ok(mon, 'getattr', 'attribute ' + k, getattr, dup, k), x, 'getattr', 'attribute', k)
            mon.eq(sorted(take(dup)), sorted(kids), 'getattr', 'children')
            for z in (name_of(c), 'nothing', k + '_'):
                if z not in kids and z not in shadow and z not in vars(dup):
                    mon.ev('child-missing')
                    raises(mon, AttributeError, 'getattr', 'missing child ' + z, getattr, dup, z)
                    mon.eq(ok(mon, 'getattr', 'hasattr', hasattr, dup, z), False, 'getattr', 'hasattr', z)
                    mon.is_(getattr(dup, z, mon), mon, 'getattr', 'default for', z)
            if how == 4:
                # an ordinary node otherwise: it can be put into a tree, encoded and copied
                box = VOrderedNode(name='box')
                twin = PlainGet()
                for n in (dup, twin):
                    box['inside'] = n
                    mon.true(box['inside'] is n and n.__parent__ is box, 'getattr', 'as a child')
                    n.__name__, n.__parent__ = 'top', None
                twin['z'] = 3
                copied = ok(mon, 'getattr', 'deepcopy', twin.deepcopy)
                mon.true(copied.z == 3 and copied.items() == [('z', 3)], 'getattr', 'deep copy', copied)
        if d % 5 == 0:
            compare()
        mon.state((op, case['cfg']['kind'], len(ref), len(views)))
    compare(True)


def fixed(mon):

    def same_object():
        # the view keeps no state of its own
        for make in KINDS:
            under, view = make()
            one, two = view(), view()
            one.x = 1
            mon.eq(two.x, 1, 'several', make.__name__)
            two['x'] = 2
            mon.eq(one.x, 2, 'several', make.__name__)
            del one['x']
            raises(mon, AttributeError, 'several', make.__name__, lambda: two.x)
            for name in CLASH:
                setattr(one, name, 'v')
                mon.eq(under[name], 'v', 'clash', make.__name__, name)
                mon.eq(getattr(two, name), 'v', 'clash', make.__name__, name)
                mon.eq(two[name], 'v', 'clash', make.__name__, name)
            for name in CLASH:
                del two[name]
                raises(mon, AttributeError, 'clash', make.__name__ + name, getattr, one, name)
            mon.eq(list(under.keys()), [], 'clash', make.__name__)
    yield 'same', same_object

    def separate():
        # nodes do not see the attributes of each other
        one, two = AttrNode(), AttrNode()
        one.attrs.x = 1
        mon.eq(hasattr(two.attrs, 'x'), False, 'separate', 'attributes')
        two.attrs.x = 2
        mon.eq((one.attrs.x, two.attrs.x), (1, 2), 'separate', 'attributes')
        one.attribute_access_for_attrs = False
        mon.eq(one.attrs['x'], 1, 'separate', 'item')
        mon.eq(hasattr(one.attrs, 'x'), False, 'separate', 'plain attributes')
        one.attribute_access_for_attrs = True
        mon.eq(one.attrs.x, 1, 'separate', 'attribute')
    yield 'separate', separate

    def refused():
        # errors of the mapping reach the caller
        n = BaseNode()
        v = n.as_attribute_access()
        raises(mon, ValueError, 'refused', 'attribute', setattr, v, 'x', 1)
        raises(mon, ValueError, 'refused', 'item', v.__setitem__, 'x', 1)
        mon.eq(take(n), [], 'refused', 'children')
    yield 'refused', refused
