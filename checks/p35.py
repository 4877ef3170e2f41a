"""P35: instances are independent of each other.

Several instances of one class and of a subclass live side by side. A random
operation runs on one of them; the observable state of all others is compared
with what it was before. A fresh instance looks like the very first one at
any time.
"""
import uuid
from kit import *
from node.behaviors import EventAttribute as EA
from node.behaviors.alias import DictAliaser, PrefixAliaser
from node.locking import TreeLock
from node.utils import AttributeAccess

ANCHORS = ['src/node/behaviors/storage.py', 'src/node/behaviors/attributes.py', 'src/node/behaviors/nodespace.py',
           'src/node/behaviors/events.py', 'src/node/behaviors/cache.py', 'src/node/behaviors/reference.py',
           'src/node/behaviors/common.py', 'src/node/behaviors/lifecycle.py', 'src/node/behaviors/order.py',
           'src/node/behaviors/mapping.py', 'src/node/behaviors/nodify.py', 'src/node/base.py', 'src/node/utils.py']
RULE = ('a case is a node class (shipped or a random composition of behaviors), 2-5 instances of it and of a subclass, and '
        '15-60 operations on one of them at a time; non-trivial: an operation changed its target and nothing else')
QUICK, THOROUGH = 4000, 100000
MIN = {'observed': 150000, 'changed': 25000, 'fresh': 6000, 'op.attr': 2000, 'op.bind': 1000, 'op.eventattr': 1000,
       'op.nodespace': 800, 'op.uuid': 500, 'op.lazy': 500, 'op.cache': 500, 'classes': 300, 'refused': 500, 'moody': 1000}
ASSUMPTIONS = ['state set on a class on purpose (factories, registered handlers) is shared',
               'no node is a child of two nodes']


class Leaf(VNode):
    pass


class LazyKid(VNode):
    pass


class Lazy(Behavior):
    factories = default(odict([('lazy1', LazyKid), ('lazy2', LazyKid)]))


class Fixed(Behavior):
    fixed_children_factories = default((('fix1', LazyKid), ('fix2', LazyKid)))


class WithEvents(Behavior):
    evattr = default(EA(0))
    __events__ = default(['happened'])


class Prefixed(Behavior):
    aliaser = default(PrefixAliaser('x-'))


class Dicted(Behavior):
    aliaser = default(DictAliaser([('k0', 'r0'), ('k1', 'r1'), ('k2', 'r2'), ('k3', 'r3')]))


PARTS = {'validate': (NodeChildValidate,), 'adopt': (Adopt,), 'unicode': (UnicodeAware,), 'prefix': (Prefixed, Alias),
         'dictalias': (Dicted, Alias), 'lifecycle': (Lifecycle,), 'nodespaces': (Nodespaces,),
         'attributes': (Nodespaces, Attributes), 'asattr': (AsAttrAccess,), 'cache': (Cache, VolatileStorageInvalidate),
         'fallback': (Fallback,), 'reference': (Reference,), 'uuid': (UUIDAware,), 'lazy': (Lazy, ChildFactory),
         'order': (Order,), 'invalidate': (Invalidate,)}
NAMES = sorted(PARTS)
SHIPPED = [BaseNode, OrderedNode, Node, AttributedNode, VBaseNode, VOrderedNode, VNode, VAttributedNode, NodeAttributes,
           CachedNode, UserNode, UserMapping, CustomStorageNode, LifecycleNode, OrderRefNode]
_built = {}


def build(names, dictstorage):
    key = tuple(names), dictstorage
    if key not in _built:
        if names == ['fixed']:
            cls = plumbing(FixedChildren, DefaultInit, Nodify)(type('Composed', (object,), {
                'fixed_children_factories': (('fix1', LazyKid), ('fix2', LazyKid))}))
        elif 'events' in names:
            # events are meant for classes which are no composition of mappings, too
            body = {'__events__': ['happened'], 'evattr': EA(0), 'evlist': EA(None, always_dispatch=True)}
            if 'undeclared' in names:
                body = {}
            cls = plumbing(Events)(type('Composed', (VOrderedNode if 'node' in names else object,), body))
        else:
            parts = []
            for n in names:
                for b in PARTS[n]:
                    if b not in parts:
                        parts.append(b)
            parts += [DefaultInit, Nodify, DictStorage if dictstorage else OdictStorage]
            cls = plumbing(*parts)(type('Composed', (object,), {}))
        _built[key] = cls, type('Sub', (cls,), {})
    return _built[key]


W = {'set': 12, 'del': 5, 'pop': 3, 'clear': 1, 'update': 3, 'setdefault': 2, 'attr': 6, 'nodespace': 3, 'bind': 4, 'unbind': 3,
     'eventattr': 4, 'dispatch': 3, 'rename': 2, 'uuid': 2, 'lazy': 3, 'cache': 3, 'insert': 4, 'swap': 3, 'new': 4, 'lock': 1,
     'register': 2, 'plain': 2, 'invalidate': 2, 'popitem': 2, 'copy': 1, 'flag': 2, 'failing': 2, 'asattr': 2}


def gen(rng, i, tier):
    r = rng.random()
    if r < .3:
        cfg = {'shipped': rng.randrange(len(SHIPPED))}
    elif r < .4:
        cfg = {'names': rng.choice([['events'], ['events', 'node'], ['events', 'undeclared'], ['events', 'node', 'undeclared']])}
    elif r < .44:
        cfg = {'names': ['fixed']}
    else:
        names = rng.sample(NAMES, rng.choice([1, 2, 2, 3, 3, 4, 5, 6]))
        for one, other in (('reference', 'uuid'), ('prefix', 'dictalias'), ('invalidate', 'cache')):
            if one in names and other in names:
                names.remove(other)
        inner = [n for n in names if n in ('prefix', 'dictalias')]
        if 'lazy' in names:
            names = [n for n in names if n not in inner]
        else:
            names = [n for n in names if n not in inner] + inner
        cfg = {'names': names, 'dict': rng.random() < .3 and 'order' not in names}
    cfg['mood'] = rng.choice((None, None) + MOODS)
    return {'cfg': cfg, 'ops': gen_ops(rng, W, 15, 60, 4)}


def run(case, mon):
    cfg = case['cfg']
    if 'shipped' in cfg:
        names = []
        cls = SHIPPED[cfg['shipped']]
        _built.setdefault(cls, (cls, type('Sub', (cls,), {})))
        cls, sub = _built[cls]
    else:
        names = cfg['names']
        cls, sub = build(names, cfg.get('dict', False))
    mon.ev('classes')
    if cfg.get('mood') and INode.implementedBy(cls):
        cls, sub = moody(cls, cfg['mood']), moody(sub, cfg['mood'])
        mon.ev('moody')
    objs, calls = [], []
    known = []             # uuids seen
    marks = []             # subscribers bound anywhere

    def new(c):
        o = c(name='n') if INode.implementedBy(c) and not issubclass(cls, UserMapping) else c()
        objs.append(o)
        if isinstance(getattr(o, 'uuid', None), uuid.UUID):
            known.append(o.uuid)
        return o

    aliased = any(n in names for n in ('prefix', 'dictalias'))
    keys = {'prefix': ['x-a', 'x-b', 'x-k'], 'dictalias': ['k0', 'k1', 'k2']}
    keys = [k for n in names for k in keys.get(n, [])] or ['a', 'b', 'k']
    if 'lazy' in names:
        keys = ['lazy1', 'lazy2']
    mapping = hasattr(cls, '__setitem__') and 'fixed' not in names
    readable = hasattr(cls, '__iter__')
    events = hasattr(cls, 'dispatch')
    declared = 'undeclared' not in names
    attributed = hasattr(cls, 'attrs')
    spaces = hasattr(cls, 'nodespaces')
    values_ok = getattr(cls, 'allow_non_node_childs', True)

    def child(r):
        if issubclass(cls, NodeAttributes) or (values_ok and r % 3 == 0 and 'reference' not in names):
            return fresh_value(r)
        return Leaf()

    def image(o):
        """All that can be seen of one instance."""
        out = []
        if readable:
            if 'lazy' in names:
                # reading would create them
                out.append(('keys', take(o), len(o)))
            else:
                out.append(('items', [(k, id(v)) for k, v in children(o)], len(o)))
        if INode.providedBy(o):
            out.append(('place', o.__name__, id(o.__parent__)))
        for k in ('uuid', 'fallback_key', 'allow_non_node_childs', 'evattr', 'evlist', 'plainattr', 'aliaser'):
            try:
                out.append((k, getattr(o, k)))
            except AttributeError:
                out.append((k, 'missing'))
        if attributed:
            out.append(('attrs', [(k, id(v)) for k, v in o.attrs.items()], id(o.attrs.parent), o.attrs.name))
        if spaces:
            out.append(('spaces', [(k, id(o['__%s__' % k]) if '__%s__' % k in o else None) for k in ('x', 'y')]))
        if hasattr(o, 'index'):
            out.append(('index', [(u in o.index, id(o.node(u)) if o.node(u) is not None else None) for u in known[-12:]]))
        if events:
            del calls[:]
            for ev in ('happened', 'extra'):
                o.dispatch(ev, o)
            out.append(('calls', list(calls)))
        return out

    def blank(o):
        """The image without what is individual."""
        return [('items', [k for k, v in x[1]], x[2]) if x[0] == 'items' else x for x in image(o)
                if x[0] not in ('uuid', 'place', 'attrs', 'index')] + \
            ([len(o.attrs)] if attributed else [])

    a0 = new(cls)
    first = blank(a0)
    firstsub = blank(new(sub))
    new(cls)

    for op, a, b, c, d in case['ops']:
        o = pick(objs, a)
        k = pick(keys, b)
        before = [image(x) for x in objs]
        mon.note(op, a % len(objs), k)
        mon.ev('op.' + op)
        if op == 'new':
            if len(objs) < 6:
                new(pick([cls, sub], b))
                before = [image(x) for x in objs]
            mon.ev('fresh')
            mon.eq(blank(cls()), first, 'fresh', 'a new instance looks different')
            mon.eq(blank(sub()), firstsub, 'fresh', 'a new instance of the subclass looks different')
        elif op in ('set', 'update', 'setdefault') and mapping:
            if 'reference' in names or isinstance(o, Node):
                if 'lazy' not in names and k in o and INode.providedBy(o[k]) and op != 'setdefault' and d % 2:
                    continue
            v = child(c)
            if op == 'set':
                ok(mon, 'set', 'set', o.__setitem__, k, v)
            elif op == 'update':
                ok(mon, 'set', 'update', o.update, [(k, v)])
            else:
                ok(mon, 'set', 'setdefault', o.setdefault, k, v)
        elif op == 'failing' and mapping:
            mon.ev('refused')
            outcome(o.__setitem__, pick([7, None, k], c), pick([None, 5, o.__class__], d)) if not values_ok else \
                outcome(o.__delitem__, 'nokey')
        elif op in ('del', 'pop') and mapping and 'lazy' not in names:
            if k in o:
                ok(mon, 'del', op, o.__delitem__ if op == 'del' else o.pop, k)
        elif op == 'popitem' and mapping and 'lazy' not in names and len(o):
            ok(mon, 'del', op, o.popitem)
        elif op == 'clear' and mapping and 'lazy' not in names:
            ok(mon, 'del', op, o.clear)
        elif op == 'attr' and attributed:
            if d % 3 == 0 and len(o.attrs):
                del o.attrs[o.attrs.keys()[0]]
            else:
                o.attrs['at%d' % (c % 3)] = fresh_value(c)
        elif op == 'nodespace' and spaces:
            s = '__%s__' % pick(['x', 'y'], b)
            if s in o and d % 2:
                del o[s]
            else:
                o[s] = Leaf()
        elif op in ('bind', 'unbind') and events:
            if op == 'bind':
                def mark(*args, n=len(marks)):
                    calls.append((n, [id(x) for x in args]))
                marks.append(mark)
                if not declared:
                    o.register_event('happened')
                ok(mon, 'bind', 'bind', o.bind, **{pick(['happened', 'evattr'], c) if declared else 'happened': mark})
            elif marks:
                kw = pick([{}, {'event': 'happened'}, {'subscriber': pick(marks, c)},
                           {'event': 'happened', 'subscriber': pick(marks, c)}], d)
                ok(mon, 'bind', 'unbind', o.unbind, **kw)
        elif op == 'register' and events:
            # known to this instance only
            o.register_event('extra')
            del calls[:]
            def mark(*args, n=len(marks)):
                calls.append((n, [id(x) for x in args]))
            marks.append(mark)
            ok(mon, 'bind', 'bind', o.bind, extra=mark)
            for x in [cls(), sub()]:
                for name in ('extra', 'happened')[:1 if declared else 2]:
                    state, got = outcome(x.bind, **{name: mark})
                    mon.eq(state, 'exc', 'events', 'event of another instance is known')
        elif op == 'eventattr' and events and declared:
            del calls[:]
            if d % 3 == 0 and 'evattr' in vars(o):
                del o.evattr
            else:
                o.evattr = pick([0, 1, 'x', None], c)
            o.evlist = c
        elif op == 'dispatch' and events:
            del calls[:]
            o.dispatch(pick(['happened', 'evattr', 'unknown'], c), 1)
        elif op == 'rename' and INode.providedBy(o):
            o.__name__ = pick(['n', 'other', None], c)
        elif op == 'plain':
            outcome(setattr, o, 'plainattr', c)
        elif op == 'flag' and INode.providedBy(o):
            o.fallback_key = pick(['zz', 'none'], c) if not aliased else pick(keys, c)
        elif op == 'uuid' and isinstance(getattr(o, 'uuid', None), uuid.UUID):
            u = uuid.uuid4()
            known.append(u)
            before = [image(x) for x in objs]
            ok(mon, 'uuid', 'setting the uuid', setattr, o, 'uuid', u)
        elif op == 'lazy' and ('lazy' in names or 'fixed' in names):
            for x in take(o):
                mon.true(not INode.providedBy(o[x]) or all(o[x] is not y[x] for y in objs if y is not o),
                         'shared', 'child', x, 'of two instances')
            if 'lazy' in names:
                o['lazy1'] = Leaf()
        elif op == 'cache' and ('cache' in names or issubclass(cls, CachedNode)):
            for x in take(o):
                o[x]
            mon.true(all(o.cache is not y.cache for y in objs if y is not o), 'shared', 'cache of two instances')
        elif op == 'invalidate' and hasattr(o, 'invalidate') and 'lazy' not in names:
            ks = take(o)
            if ks and c % 2:
                ok(mon, 'invalidate', 'invalidate', o.invalidate, pick(ks, d))
            elif c % 3 == 0:
                ok(mon, 'invalidate', 'invalidate', o.invalidate)
        elif op == 'insert' and hasattr(o, 'insertfirst') and not aliased and 'lazy' not in names:
            n = Leaf(name=k)
            if k not in o:
                ok(mon, 'insert', 'insert', o.insertfirst if c % 2 else o.insertlast, n)
        elif op == 'swap' and hasattr(o, 'swap') and not aliased and 'lazy' not in names:
            ns = [v for v in o.values() if INode.providedBy(v) and v.__name__ in o]
            if len(ns) > 1:
                ok(mon, 'swap', 'swap', o.swap, ns[0], ns[-1])
        elif op == 'asattr' and hasattr(o, 'as_attribute_access') and not aliased:
            x = o.as_attribute_access()
            if ('reference' in names or isinstance(o, Node)) and k in o and INode.providedBy(o[k]):
                continue
            setattr(x, k, child(c))
        elif op == 'lock' and INode.providedBy(o):
            with TreeLock(o):
                pass
        elif op == 'copy' and readable and 'reference' not in names and 'uuid' not in names and 'lazy' not in names:
            outcome(o.deepcopy)
        else:
            continue
        for n, x in enumerate(objs):
            now = image(x)
            if x is o:
                if now != before[n]:
                    mon.ev('changed')
                    mon.state((op, tuple(names), cfg.get('shipped')))
            else:
                mon.ev('observed')
                mon.true(True, 'shared')
                if now != before[n]:
                    diff = [(p, q) for p, q in zip(before[n], now) if p != q]
                    raise Violation('shared', '{} on instance {} changed instance {}: {}'.format(
                        op, a % len(objs), n, short(diff)))
    mon.ev('fresh')
    mon.eq(blank(cls()), first, 'fresh', 'a new instance looks different')
    mon.eq(blank(sub()), firstsub, 'fresh', 'a new instance of the subclass looks different')
    if mapping and hasattr(a0, 'storage') and 'fixed' not in names:
        mon.true(len({id(x.storage) for x in objs}) == len(objs), 'shared', 'storage of two instances')
    if spaces:
        mon.true(len({id(x.nodespaces) for x in objs}) == len(objs), 'shared', 'nodespaces of two instances')
