"""P29: fixed children never change.

Every factory call is recorded when it happens; all later reads have to give
these very objects, in configured order, whatever was tried in between.
"""
from kit import *

ANCHORS = ['src/node/behaviors/common.py']
RULE = ('a case is up to 8 instances of classes with 0-6 fixed children and 20-80 read and write attempts on them and their '
        'children; non-trivial: a refused write followed by a full comparison')
QUICK, THOROUGH = 5000, 150000
MIN = {'instance': 6500, 'factory-call': 15000, 'refused': 50000, 'read': 14000, 'missing': 8000, 'all-views': 50000,
       'nested': 500, 'child-edit': 2400, 'deepcopy': 500, 'harmless': 3000, 'second-instance': 4000,
       'refused-node': 8000, 'same-factory': 500}
ASSUMPTIONS = ['configured keys are different from each other', 'factories return a new child on every call',
               'shallow copies, which share the children by definition, are not judged']

LOG = []


def logged(make):
    def factory():
        child = make()
        LOG.append(child)
        return child
    return factory


class PlainChild(object):
    pass


class FalsyChild(VOrderedNode):

    def __bool__(self):
        return False


class EqualChild(object):

    def __eq__(self, other):
        return True

    __hash__ = None


@plumbing(DefaultInit, Nodify, FixedChildren)
class Inner(object):
    fixed_children_factories = (('x', PlainChild), ('y', VBaseNode))


MAKERS = [PlainChild, VBaseNode, VOrderedNode, FalsyChild, EqualChild, Inner, lambda: VNode(name='preset'),
          lambda: VBaseNode(name='other', parent=VBaseNode())]


@plumbing(Nodify, FixedChildren)
class F0(object):
    pass


@plumbing(DefaultInit, Nodify, FixedChildren)
class F1(object):
    pass


@plumbing(Adopt, DefaultInit, Nodify, FixedChildren)
class F2(object):
    pass


@plumbing(NodeChildValidate, Adopt, DefaultInit, Nodify, FixedChildren)
class F3(object):
    allow_non_node_childs = True


@plumbing(Nodespaces, Attributes, Adopt, DefaultInit, Nodify, FixedChildren)
class F4(object):
    pass


@plumbing(FullMapping, FixedChildren)
class F5(object):
    pass


@plumbing(FixedChildren, Adopt, Nodify)
class F6(object):

    def __init__(self, name=None, parent=None):
        self.__name__ = name
        self.__parent__ = parent


@plumbing(AsAttrAccess, UnicodeAware, DefaultInit, Nodify, FixedChildren)
class F7(object):
    pass


FIXED = [F0, F1, F2, F3, F4, F5, F6, F7]
KEYS = ['a', 'b', 'c', 'd', 'foo', 'ä', 'x y', '', 1, 0, None, ('t',), 'keys', '_children', 'z', 'k' * 70, Text('text'), '%s{}']
W = {'new': 3, 'set': 10, 'setnew': 5, 'del': 8, 'pop': 6, 'popitem': 4, 'clear': 4, 'update': 8, 'setdefault': 8,
     'detach': 6, 'read': 10, 'missing': 6, 'child': 4, 'deepcopy': 1, 'iterdel': 2, 'delmissing': 3}


def gen(rng, i, tier):
    n = rng.choice([0, 1, 2, 2, 3, 3, 4, 6])
    keys = rng.sample(range(len(KEYS)), n)
    return {'cfg': {'cls': i % len(FIXED), 'kids': [[k, rng.randrange(len(MAKERS))] for k in keys],
                    'sub': rng.random() < .3, 'same': rng.choice([0, 0, 1, 2]), 'form': rng.randrange(3), 'bury': rng.randrange(R)},
            'ops': gen_ops(rng, W, 20, 80)}


def run(case, mon):
    cfg = case['cfg']
    base = FIXED[cfg['cls']]
    strs = base in (F4, F7)
    conf = [(KEYS[k], MAKERS[m]) for k, m in cfg['kids'] if not strs or isinstance(KEYS[k], str)]
    factories = [(k, logged(m)) for k, m in conf]
    if cfg.get('same') and conf:
        # one factory for several keys
        factories = [(k, factories[n % cfg['same']][1]) for n, (k, f) in enumerate(factories)]
        mon.ev('same-factory', len(conf) > cfg['same'])
    if cfg['form'] == 1:
        factories = tuple(factories)
    elif cfg['form'] == 2:
        factories = odict(factories).items()
    cls = type('Fixed', (base,), {'fixed_children_factories': factories})
    if cfg['sub']:
        cls = type('Sub', (cls,), {})
    want = [k for k, m in conf]
    instances = []
    everything = []

    def new():
        del LOG[:]
        obj = ok(mon, 'init', 'construction', cls)
        mon.ev('instance')
        mon.ev('second-instance', bool(instances))
        mon.ev('factory-call', len(LOG))
        mon.eq(len(LOG), len(want), 'init', 'number of factory calls')
        for c in LOG:
            mon.true(not any(c is x for x in everything), 'init', 'child shared with another instance')
        everything.extend(LOG)
        kids = list(zip(want, LOG))
        instances.append((obj, kids))
        compare(len(instances) - 1)
        if bury(obj, cfg.get('bury', 0) // len(instances)):
            mon.ev('inner')
            compare(len(instances) - 1)

    def compare(i):
        obj, kids = instances[i]
        mon.ev('all-views')
        before = len(LOG)
        mon.eq(take(obj), want, 'reads', 'iteration')
        mon.eq(list(obj.keys()), want, 'reads', 'keys')
        mon.eq(take(obj.iterkeys()), want, 'reads', 'iterkeys')
        mon.eq(len(obj), len(want), 'reads', 'length')
        for got in (obj.values(), take(obj.itervalues())):
            mon.true(len(got) == len(kids) and all(x is y[1] for x, y in zip(got, kids)), 'reads', 'values', got)
        for got in (obj.items(), take(obj.iteritems())):
            mon.true(ident_pairs(list(got), kids), 'reads', 'items', got)
        for k, c in kids:
            mon.is_(obj[k], c, 'reads', 'item', k)
            mon.is_(obj.get(k, LOG), c, 'reads', 'get', k)
            mon.eq(k in obj, True, 'reads', 'contains', k)
            mon.eq(obj.has_key(k), True, 'reads', 'has_key', k)
            mon.true(c.__name__ == k and type(c.__name__) is type(k), 'location', 'name', c.__name__, 'of', k)
            mon.is_(c.__parent__, obj, 'location', 'parent of', k)
        mon.eq(len(LOG), before, 'once', 'reading created children')

    new()
    for op, a, b, c, d in case['ops']:
        i = a % len(instances)
        obj, kids = instances[i]
        k = pick(want, b) if want else 'a'
        absent = pick([x for x in KEYS if x not in want and (not strs or isinstance(x, str))], b)
        value = [VBaseNode(), 1, None, PlainChild(), kids[0][1] if kids else 'v', VOrderedNode(name='n')][c % 6]
        mon.note(op, i, k)

        def refused(what, fn, *args, **kw):
            mon.ev('refused')
            mon.nontrivial.add(hash((op, cfg['cls'], len(want), str(args)[:20])))
            state, val = outcome(fn, *args, **kw)
            mon.true(state == 'exc', 'refused', what, 'was not refused but gave', val)

        names = [(x, x.__name__, x.__parent__) for y, x in kids]
        if op == 'new':
            if len(instances) < 8:
                new()
        elif op == 'set' and want:
            refused('set', obj.__setitem__, k, value)
        elif op == 'setnew':
            refused('set of a new key', obj.__setitem__, absent, value)
        elif op == 'del' and want:
            refused('del', obj.__delitem__, k)
        elif op == 'delmissing':
            refused('del of a missing key', obj.__delitem__, absent)
        elif op == 'pop' and want:
            refused('pop', obj.pop, k, *([None] if d % 2 else []))
        elif op == 'popitem':
            refused('popitem', obj.popitem)
        elif op == 'clear':
            if want:
                refused('clear', obj.clear)
            else:
                mon.ev('harmless')
                outcome(obj.clear)
        elif op == 'update':
            how = d % 5
            if how == 0 and want:
                refused('update', obj.update, [(k, value)])
            elif how == 1:
                refused('update', obj.update, {absent: value})
            elif how == 2:
                refused('update', lambda: obj.update(foo=value))
            elif how == 3:
                other = VOrderedNode()
                other['q'] = 1
                refused('update', obj.update, other)
            else:
                mon.ev('harmless')
                outcome(obj.update, {})
        elif op == 'setdefault':
            if want and d % 2:
                mon.is_(ok(mon, 'reads', 'setdefault of a present key', obj.setdefault, k, value),
                        [y for x, y in kids if x == k][0], 'reads', 'setdefault of a present key')
            else:
                refused('setdefault', obj.setdefault, absent, *([value] if d % 3 else []))
        elif op == 'detach' and hasattr(type(obj), 'detach'):
            if want and d % 4:
                refused('detach', obj.detach, k)
            else:
                refused('detach of a missing key', obj.detach, absent)
        elif op == 'missing':
            mon.ev('missing')
            raises(mon, KeyError, 'missing', 'item', obj.__getitem__, absent)
            mon.is_(obj.get(absent, LOG), LOG, 'missing', 'get')
            mon.is_(obj.get(absent), None, 'missing', 'get')
            mon.eq(absent in obj, False, 'missing', 'contains')
            mon.eq(obj.has_key(absent), False, 'missing', 'has_key')
            mon.is_(ok(mon, 'missing', 'pop with default', obj.pop, absent, LOG), LOG, 'missing', 'pop with default')
            raises(mon, KeyError, 'missing', 'pop', obj.pop, absent)
        elif op == 'read':
            mon.ev('read')
            mon.is_(obj[k] if want else None, [y for x, y in kids if x == k][0] if want else None, 'reads', 'item')
        elif op == 'iterdel':
            # trying to change while iterating
            seen = []
            for x in obj:
                seen.append(x)
                refused('del', obj.__delitem__, x)
            mon.eq(seen, want, 'reads', 'iteration with refused deletions')
        elif op == 'child' and kids:
            child = pick(kids, b)[1]
            if isinstance(child, (VBaseNode, VOrderedNode)) and not isinstance(child, VNode):
                mon.ev('child-edit')
                child['k%d' % (c % 3)] = d
                if d % 3 == 0:
                    child.clear()
            elif isinstance(child, Inner):
                mon.ev('nested')
                mon.eq(take(child), ['x', 'y'], 'nested', 'keys')
                mon.true(child['x'].__name__ == 'x' and child['x'].__parent__ is child, 'nested', 'location')
                refused('set on nested', child.__setitem__, 'x', 1)
        elif op == 'deepcopy' and base is not F5:
            mon.ev('deepcopy')
            new_ = ok(mon, 'deepcopy', 'deepcopy', obj.deepcopy)
            mon.eq(take(new_), want, 'deepcopy', 'keys')
            for x, y in kids:
                mon.true(new_[x] is not y, 'deepcopy', 'child shared with the copy')
                mon.true(new_[x].__name__ == x and new_[x].__parent__ is new_, 'deepcopy', 'location in the copy')
            raises(mon, Exception, 'deepcopy', 'set on the copy', new_.__setitem__, 'a', 1)
            mon.eq(take(new_), want, 'deepcopy', 'keys')
        for x, n, p in names:
            mon.true(x.__name__ is n and x.__parent__ is p, 'location', 'child was renamed')
        if op in ('set', 'setnew', 'update', 'setdefault') and value is not (kids[0][1] if kids else None):
            # a refused node belongs to nobody
            if INode.providedBy(value):
                mon.ev('refused-node')
                mon.true(value.__parent__ is None, 'location', 'refused node has the parent', value.__parent__)
        compare(i)
        if d % 7 == 0:
            for j in range(len(instances)):
                compare(j)
        mon.state((op, cfg['cls'], len(want), len(instances)))
    for j in range(len(instances)):
        compare(j)


def fixed(mon):

    def parent_config():
        # children may look at their parent, which is set already
        class Child(VBaseNode):
            def depth(self):
                return self.parent.level + 1

        @plumbing(DefaultInit, Nodify, FixedChildren)
        class Top(object):
            level = 3
            fixed_children_factories = [('c', Child)]
        top = Top(name='top')
        mon.eq(top['c'].depth(), 4, 'location', 'parent')
        mon.eq(top['c'].path, ['top', 'c'], 'location', 'path')
        mon.is_(top['c'].root, top, 'location', 'root')
    yield 'parent', parent_config

    def init_args():
        @plumbing(FixedChildren, Nodify)
        class Top(object):
            fixed_children_factories = [('c', PlainChild)]

            def __init__(self, one, two=2):
                self.got = (one, two)
        mon.eq(Top(1).got, (1, 2), 'init', 'arguments')
        mon.eq(Top(1, two=3).got, (1, 3), 'init', 'arguments')
        mon.eq(take(Top(5)), ['c'], 'init', 'children')
    yield 'init-arguments', init_args

    def configured_later():
        # the configuration changes after construction
        class Late(F1):
            fixed_children_factories = [('a', PlainChild), ('b', PlainChild)]
        one = Late()
        a, b = one['a'], one['b']
        Late.fixed_children_factories.append(('c', PlainChild))
        mon.eq(take(one), ['a', 'b'], 'history', 'children of the first instance')
        two = Late()
        mon.eq(take(two), ['a', 'b', 'c'], 'history', 'children of the second instance')
        Late.fixed_children_factories[:] = []
        mon.eq(take(one), ['a', 'b'], 'history', 'children of the first instance')
        mon.true(one['a'] is a and one['b'] is b and two['a'] is not a, 'history', 'identity')
    yield 'configured-later', configured_later
