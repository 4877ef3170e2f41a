"""P36: what was removed is released.

Every node, value, subscriber and argument created in a case is known by a weak
reference. After each batch of operations everything reachable from the kept
trees through public interfaces is collected; after a garbage collection all
other objects must be gone. At the end all trees are dropped and nothing may
be left.
"""
import copy
import gc
import threading
import uuid
import weakref
from kit import *
from node.behaviors import EventAttribute as EA
from node.behaviors import suppress_events
from node.behaviors.alias import DictAliaser, PrefixAliaser
from node.locking import TreeLock, locktree
from node.serializer import deserialize, serialize
from node.utils import LocationIterator, ReverseMapping, StrCodec, debug, instance_property, node_by_path

ANCHORS = ['src/node/behaviors/storage.py', 'src/node/behaviors/attributes.py', 'src/node/behaviors/nodespace.py',
           'src/node/behaviors/events.py', 'src/node/behaviors/cache.py', 'src/node/behaviors/reference.py',
           'src/node/behaviors/common.py', 'src/node/behaviors/lifecycle.py', 'src/node/behaviors/order.py',
           'src/node/behaviors/fallback.py', 'src/node/behaviors/mapping.py', 'src/node/behaviors/nodify.py',
           'src/node/locking.py', 'src/node/serializer.py', 'src/node/utils.py', 'src/node/base.py']
RULE = ('a case is a node class (shipped or a random composition of behaviors), trees of it and 20-60 operations, among them failing '
        'ones, lookups, copies, dispatching, serializing; non-trivial: an object created in the case was no longer reachable and found gone')
QUICK, THOROUGH = 5000, 120000
MIN = {'released': 100000, 'collections': 15000, 'reachable': 200000, 'released.value': 8000, 'released.node': 25000,
       'released.subscriber': 300, 'released.argument': 2000, 'released.lazy': 500, 'released.at-end': 15000, 'failed': 5000,
       'op.events': 800, 'op.detach': 1500, 'op.copy': 1500, 'op.fallback': 500, 'op.lock': 500, 'op.invalidate': 300}
ASSUMPTIONS = ['a removed node which is still in use keeps its former parent in reach', 'judged after a full garbage collection',
               'no errors or tracebacks of the operations are kept',
               'nodes found by fallback lookup are not cached']

REG = []


class Val(object):
    """A value one can refer to weakly."""

    def __init__(self, kind='value'):
        self.kind = kind
        REG.append((kind, weakref.ref(self)))

    def __call__(self, *args, **kw):
        if self.kind == 'raising':
            raise ZeroDivisionError(args)


class Kid(VOrderedNode):

    def __init__(self, *args, **kw):
        super(Kid, self).__init__(*args, **kw)
        REG.append(('lazy', weakref.ref(self)))


class RefKid(VNode):

    def __init__(self, *args, **kw):
        super(RefKid, self).__init__(*args, **kw)
        REG.append(('lazy', weakref.ref(self)))


class Lazy(Behavior):
    factories = default(odict([('lazy1', RefKid), ('lazy2', RefKid)]))


class Evented(Behavior):
    evattr = default(EA(0))
    evlist = default(EA(None, always_dispatch=True))
    __events__ = default(['happened', 'evattr', 'evlist'])


class Prefixed(Behavior):
    aliaser = default(PrefixAliaser('x-'))


class Dicted(Behavior):
    aliaser = default(DictAliaser([('k0', 'r0'), ('k1', 'r1'), ('k2', 'r2'), ('k3', 'r3')]))


class Props(Behavior):

    @default
    @instance_property
    def prop(self):
        return Val()

    @default
    @instance_property
    def badprop(self):
        raise ValueError(Val())

    @default
    @locktree
    def locked(self, fn, *args):
        return fn(*args)

    @default
    @debug
    def logged(self, *args):
        return args


PARTS = {'validate': (NodeChildValidate,), 'adopt': (Adopt,), 'unicode': (UnicodeAware,), 'prefix': (Prefixed, Alias),
         'dictalias': (Dicted, Alias), 'lifecycle': (Lifecycle,), 'nodespaces': (Nodespaces,),
         'attributes': (Nodespaces, Attributes), 'asattr': (AsAttrAccess,), 'cache': (Cache, VolatileStorageInvalidate),
         'fallback': (Fallback,), 'reference': (Reference,), 'uuid': (UUIDAware,), 'lazy': (Lazy, ChildFactory),
         'order': (Order,), 'invalidate': (Invalidate,)}
NAMES = sorted(PARTS)
SHIPPED = [VBaseNode, VOrderedNode, VNode, VAttributedNode, CachedNode, UserNode, CustomStorageNode, LifecycleNode,
           OrderRefNode, FallbackNode]
_built = {}


def build(names, dictstorage, events):
    key = tuple(names), dictstorage, events
    if key not in _built:
        parts = []
        for n in names:
            for b in PARTS[n]:
                if b is VolatileStorageInvalidate and 'reference' in names:
                    # what becomes of the index then is not claimed
                    b = Invalidate
                if b not in parts:
                    parts.append(b)
        parts += [Props, DefaultInit, Nodify, DictStorage if dictstorage else OdictStorage]
        name = 'Composed%d' % len(_built)
        cls = plumbing(*parts)(type(name, (object,), {'__module__': __name__}))
        if events:
            cls = plumbing(Events)(type(name, (cls,), {
                '__events__': ['happened'], 'evattr': EA(0), 'evlist': EA(None, always_dispatch=True), '__module__': __name__}))
        _built[key] = cls
    return _built[key]


W = {'set': 16, 'del': 6, 'pop': 3, 'clear': 1, 'update': 2, 'setdefault': 2, 'attr': 5, 'nodespace': 4, 'events': 8,
     'rename': 1, 'uuid': 2, 'lazy': 3, 'cache': 3, 'insert': 4, 'swap': 2, 'new': 2, 'lock': 3, 'move': 4,
     'invalidate': 3, 'popitem': 2, 'copy': 3, 'reject': 6, 'missing': 3, 'fallback': 4, 'serialize': 2, 'render': 2,
     'search': 3, 'view': 3, 'codec': 1, 'detach': 5, 'drop': 2, 'half': 2, 'prop': 2, 'check': 4, 'below': 8, 'keytext': 1}


def gen(rng, i, tier):
    r = rng.random()
    if r < .3:
        cfg = {'shipped': rng.randrange(len(SHIPPED))}
    else:
        names = rng.sample(NAMES, rng.choice([1, 2, 2, 3, 3, 4, 5, 6]))
        for one, other in (('reference', 'uuid'), ('prefix', 'dictalias'), ('invalidate', 'cache'), ('cache', 'fallback')):
            if one in names and other in names:
                names.remove(other)
        inner = [n for n in names if n in ('prefix', 'dictalias')]
        if 'lazy' in names:
            names = [n for n in names if n not in inner]
        else:
            names = [n for n in names if n not in inner] + inner
        cfg = {'names': names, 'dict': rng.random() < .3 and 'order' not in names, 'events': rng.random() < .3}
    return {'cfg': cfg, 'ops': gen_ops(rng, W, 20, 60, 4)}


def prepare(cfg):
    """Everything there before the first node is left out of collections."""
    known = len(_built)
    cls = SHIPPED[cfg['shipped']] if 'shipped' in cfg else build(cfg['names'], cfg.get('dict', False), cfg.get('events', False))
    if len(_built) > known or not gc.get_freeze_count():
        gc.collect()
        gc.freeze()
    return cls


def quiet(mon, fn, *args, **kw):
    """fn(), its errors are forgotten."""
    try:
        fn(*args, **kw)
        return True
    except Exception:
        mon.ev('failed')
        return False


class World(object):

    def __init__(self, cfg, mon):
        self.mon = mon
        self.cfg = cfg
        self.names = cfg.get('names', [])
        self.cls = cls = prepare(cfg)
        self.aliased = any(n in self.names for n in ('prefix', 'dictalias'))
        keys = {'prefix': ['x-a', 'x-b', 'x-k'], 'dictalias': ['k0', 'k1', 'k2']}
        self.keys = [k for n in self.names for k in keys.get(n, [])] or ['a', 'b', 'k']
        self.is_lazy = 'lazy' in self.names
        if self.is_lazy:
            self.keys = ['lazy1', 'lazy2']
        self.ref = 'reference' in self.names or issubclass(cls, (Node, AttributedNode)) or cls is OrderRefNode
        self.values_ok = not self.ref and not self.is_lazy and cls is not UserNode and 'lifecycle' not in self.names \
            and not issubclass(cls, LifecycleNode) and not hasattr(cls, 'fallback_key')
        self.evented = cfg.get('events', False)
        self.roots = []
        self.bound = {}           # number of dispatcher: [(event, number of subscriber)]
        self.new()

    def number(self, ob):
        """Place in the registry."""
        for n, (kind, ref) in enumerate(REG):
            if ref() is ob:
                return n

    def reg(self, ob, kind='node'):
        REG.append((kind, weakref.ref(ob)))
        return ob

    def make(self, name=None, kind='node'):
        return self.reg(self.cls(name=name), kind)

    def new(self):
        self.roots.append(self.make('n'))

    def kids(self, node):
        return children(node)

    def pick(self, r):
        """A node of the kept trees, of our own class."""
        node = pick(self.roots, r)
        r //= 8
        for _ in range(r % 4):
            below = [v for k, v in self.kids(node) if type(v) is self.cls]
            if not below:
                break
            r //= 4
            node = pick(below, r)
        return node

    def child(self, r, values=True):
        if values and self.values_ok and r % 4 == 0:
            return Val() if r % 8 else [Val()]
        node = self.make()
        if r % 3 == 0 and not self.is_lazy:
            quiet(self.mon, node.__setitem__, self.keys[0], self.make())
            if self.values_ok and r % 2:
                quiet(self.mon, node.__setitem__, self.keys[1], Val())
        return node

    # -- monitor ----------------------------------------------------------

    def reach(self):
        """Ids of everything in the kept trees."""
        seen = {}
        todo = list(self.roots)
        numbers = {id(ref()): n for n, (kind, ref) in enumerate(REG) if ref() is not None}
        while todo:
            x = todo.pop()
            if id(x) in seen or x is None:
                continue
            if isinstance(x, (str, int, bytes, type, float)):
                continue
            seen[id(x)] = x
            if isinstance(x, (list, tuple)):
                todo.extend(x)
            elif isinstance(x, dict):
                todo.extend(x.values())
            elif INode.providedBy(x):
                if id(x) not in numbers:
                    # made by the node itself, like attributes
                    numbers[id(x)] = len(REG)
                    self.reg(x, 'part')
                for pair in self.kids(x):
                    todo.extend(pair)
                todo.append(x.__name__)
                todo.append(x.__parent__)
                if hasattr(type(x), 'attrs'):
                    a = x.attrs
                    if INode.providedBy(a):
                        todo.append(a)
                if hasattr(type(x), 'nodespaces'):
                    for s in ('__x__', '__y__'):
                        if s in x:
                            todo.append(x[s])
                if hasattr(type(x), 'prop'):
                    todo.append(vars(x).get('_prop'))
                if hasattr(type(x), 'evattr'):
                    todo.append(x.evattr)
                    todo.append(x.evlist)
                for event, number in self.bound.get(numbers[id(x)], ()):
                    todo.append(REG[number][1]())
        return set(seen)

    def check(self, end=False):
        mon = self.mon
        if end:
            del self.roots[:]
        ids = self.reach()
        gc.collect()
        mon.ev('collections')
        left = []
        for n, (kind, ref) in enumerate(REG):
            if kind is None:
                continue
            ob = ref()
            if ob is None:
                mon.ev('released')
                mon.ev('released.' + kind)
                if end:
                    mon.ev('released.at-end')
                REG[n] = (None, ref)
            elif id(ob) in ids:
                mon.ev('reachable')
            elif kind == 'final' and not end:
                pass
            else:
                left.append((n, kind, ob))
            ob = None
        mon.ev('comparisons', len(REG))
        mon.state((tuple(self.names), self.cfg.get('shipped'), len(ids), len(REG) // 4))
        if left:
            n, kind, ob = left[0]
            by = sorted({type(x).__name__ for x in gc.get_referrers(ob)} - {'list', 'frame', 'tuple'} or {'list'})
            raise Violation('kept', '{} objects no longer in use are kept, number {} ({}, {}) is referred to by {}{}'.format(
                len(left), n, kind, type(ob).__name__, ', '.join(by), ' after everything was dropped' if end else ''))


def run(case, mon):
    del REG[:]
    w = World(case['cfg'], mon)
    try:
        for n, op in enumerate(case['ops']):
            step(w, mon, *op)
            if n % 6 == 5 or op[0] == 'check':
                w.check()
        w.check()
        w.check(end=True)
    finally:
        del w.roots[:]
        del REG[:]


def step(w, mon, op, a, b, c, d):
    o = w.pick(a)
    k = pick(w.keys, b)
    mon.note(op, w.number(o), k)
    cls = w.cls
    mon.ev('op.' + op)

    def free(k):
        """Nothing in the way of another node under this key."""
        return w.is_lazy or k not in o or not w.ref or d % 3

    if op == 'set' and free(k):
        quiet(mon, o.__setitem__, k, w.child(c))
    elif op == 'below' and not w.is_lazy:
        node = o
        for n in range(c % 5 + 1):
            kid = w.make()
            if not quiet(mon, node.__setitem__, pick(w.keys, d + n), kid):
                break
            node = kid
    elif op == 'update' and free(k):
        quiet(mon, o.update, [(k, w.child(c)), (pick(w.keys, c), w.child(d))])
    elif op == 'setdefault':
        quiet(mon, o.setdefault, k, w.child(c))
    elif op == 'del' and not w.is_lazy:
        quiet(mon, o.__delitem__, k)
    elif op == 'pop' and not w.is_lazy:
        quiet(mon, o.pop, k, Val('argument'))
    elif op == 'popitem' and not w.is_lazy:
        quiet(mon, o.popitem)
    elif op == 'clear' and not w.is_lazy:
        quiet(mon, o.clear)
    elif op == 'reject':
        # refused or half refused
        r = c % 7
        if r == 0 and not hasattr(cls, 'fallback_key'):
            quiet(mon, o.__setitem__, k, Val())
        elif r == 1 and not hasattr(cls, 'fallback_key'):
            quiet(mon, o.__setitem__, k, cls)
        elif r == 2 and w.aliased:
            quiet(mon, o.__setitem__, 'foreign', w.make())
        elif r == 3 and w.ref:
            node = w.child(d, False)
            node.uuid = o.uuid
            quiet(mon, o.__setitem__, k, node)
        elif r == 4 and hasattr(o, 'insertbefore') and not w.is_lazy:
            quiet(mon, o.insertbefore, w.make(k), w.make('other'))
        elif r == 5:
            quiet(mon, o.__setitem__, [Val()], w.make())
        elif r == 6 and hasattr(o, 'attrs'):
            quiet(mon, o.attrs.__setitem__, [Val()], Val())
    elif op == 'missing':
        for fn in (o.__getitem__, o.get, o.__contains__, o.pop, o.detach if hasattr(o, 'detach') else o.pop,
                   lambda key: node_by_path(o, [k, key])):
            quiet(mon, fn, 'nothing')
        quiet(mon, o.get, 'nothing', Val('argument'))
    elif op == 'attr' and hasattr(o, 'attrs'):
        at = 'at%d' % (c % 3)
        if d % 4 == 0:
            quiet(mon, o.attrs.__delitem__, at)
        elif d % 4 == 1:
            quiet(mon, o.attrs.clear)
        else:
            o.attrs[at] = Val() if d % 2 else [Val(), Val()]
    elif op == 'nodespace' and hasattr(o, 'nodespaces'):
        s = '__%s__' % pick(['x', 'y'], b)
        if d % 3 == 0:
            quiet(mon, o.__delitem__, s)
        else:
            quiet(mon, o.__setitem__, s, w.reg(VOrderedNode()))
            if s in o:
                quiet(mon, o[s].__setitem__, 'kid', w.reg(VOrderedNode()))
    elif op == 'rename':
        o.__name__ = o.__name__
    elif op == 'uuid' and isinstance(getattr(o, 'uuid', None), uuid.UUID):
        u = uuid.uuid4()
        w.reg(u, 'final')
        quiet(mon, setattr, o, 'uuid', u)
        if w.ref:
            o.node(u), o.index.get(u), o.node(uuid.uuid4())
    elif op == 'lazy' and w.is_lazy:
        o[k]
        if d % 2:
            # created again by reading
            quiet(mon, o.__setitem__, k, w.make())
    elif op == 'cache':
        for x in take(o):
            o[x]
    elif op == 'invalidate' and hasattr(o, 'invalidate') and not w.is_lazy:
        if c % 2:
            quiet(mon, o.invalidate, k)
        else:
            quiet(mon, o.invalidate)
    elif op == 'insert' and hasattr(o, 'insertfirst') and not w.is_lazy and not w.aliased:
        new = w.make(k)
        kids = [v for v in o.values() if INode.providedBy(v)]
        r = c % 4
        if r == 0:
            quiet(mon, o.insertfirst, new)
        elif r == 1:
            quiet(mon, o.insertlast, new)
        elif kids:
            quiet(mon, o.insertbefore if r == 2 else o.insertafter, new, pick(kids, d))
    elif op == 'swap' and hasattr(o, 'swap') and not w.is_lazy and not w.aliased:
        kids = [v for v in o.values() if INode.providedBy(v)]
        if len(kids) > 1:
            quiet(mon, o.swap, kids[0], kids[-1])
    elif op == 'detach' and hasattr(o, 'detach') and not w.is_lazy:
        if k in o and INode.providedBy(o[k]):
            try:
                node = o.detach(k)
            except Exception:
                return mon.ev('failed')
            node.__parent__ = None  # as any user would
            if d % 2 and len(w.roots) < 4:
                w.roots.append(node)
    elif op == 'move' and hasattr(o, 'detach') and not w.is_lazy:
        if k in o and INode.providedBy(o[k]):
            try:
                node = o.detach(k)
            except Exception:
                return mon.ev('failed')
            to = w.pick(c)
            quiet(mon, to.__setitem__, pick(w.keys, d), node)
            if node.__parent__ is not to:
                node.__parent__ = None
    elif op == 'new':
        if len(w.roots) < 4:
            w.new()
    elif op == 'drop':
        if len(w.roots) > 1:
            # what hangs below other kept trees stays in reach
            del w.roots[c % len(w.roots)]
    elif op == 'lock':
        def boom(*args):
            raise RuntimeError(args)
        r = c % 4
        if r == 0:
            with TreeLock(o):
                o.get(k)
        elif r == 1:
            def main(o):
                lock = TreeLock(o)
                with lock:
                    pass
            t = threading.Thread(target=main, args=(o,))
            t.start()
            t.join()
        elif hasattr(o, 'locked'):
            quiet(mon, o.locked, boom if r == 2 else boom.__class__, Val('argument'))
    elif op == 'copy':
        r = c % 3
        try:
            new = o.deepcopy() if r == 0 else copy.deepcopy(o) if r == 1 else copy.copy(o)
        except Exception:
            mon.ev('failed')
            return
        if r < 2:
            for x in walk(new):
                w.reg(x, 'copy')
                if hasattr(x, 'attrs') and INode.providedBy(x.attrs):
                    w.reg(x.attrs, 'copy')
        else:
            w.reg(new, 'copy')
    elif op == 'events' and w.evented:
        events(w, mon, o, b, c, d)
    elif op == 'fallback':
        r = c % 4
        if hasattr(type(o), 'fallback_key'):
            if w.aliased or w.is_lazy:
                key = pick(w.keys, d)
            else:
                key = pick(w.keys + ['zz'], d)
            if r == 0:
                o.fallback_key = key
            elif r == 1:
                quiet(mon, o.__getitem__, 'nothing')
            elif r == 2:
                for x in take(walk(o)):
                    if type(x) is cls:
                        quiet(mon, x.get, pick(w.keys, d), Val('argument'))
            else:
                t = threading.Thread(target=lambda: quiet(mon, o.__getitem__, 'nothing'))
                t.start()
                t.join()
    elif op == 'serialize':
        simple = c % 2
        try:
            text = serialize(o, simple_mode=bool(simple))
            if not simple:
                new = deserialize(text)
                for x in walk(new):
                    w.reg(x, 'copy')
        except Exception:
            mon.ev('failed')
        quiet(mon, serialize, {'a': [Val('argument')], 'b': w.make()})
        quiet(mon, deserialize, '{"__node__": {"class": "nowhere.Nothing", "children": []}}', w.make())
    elif op == 'render':
        quiet(mon, o.treerepr)
        repr(o), str(o)
    elif op == 'search':
        def found(x):
            if c % 3 == 0:
                raise LookupError(x)
            return c % 3 == 1
        if hasattr(o, 'acquire'):
            quiet(mon, o.acquire, INode)
            quiet(mon, o.acquire, Val)
        if hasattr(o, 'filtereditems'):
            for x in o.filtereditems(INode):
                if c % 2:
                    break
        x = o.root, o.path, take(LocationIterator(o))
        quiet(mon, node_by_path, o, [k, k, k])
        for x in LocationIterator(o):
            break
    elif op == 'view':
        view = ReverseMapping(o)
        quiet(mon, view.get, Val('argument'), Val('argument'))
        quiet(mon, view.__getitem__, Val('argument'))
        view.items(), view.keys(), view.values()
        for x in view:
            break
        if hasattr(o, 'as_attribute_access'):
            x = o.as_attribute_access()
            getattr(x, 'nothing', Val('argument'))
            if free(k) and not w.aliased:
                quiet(mon, setattr, x, k, w.child(d))
            quiet(mon, getattr, x, k)
    elif op == 'codec':
        codec = StrCodec(soft=bool(c % 2))
        data = {'a': [Val('argument'), 'x', b'y'], 'b': (Val('argument'),), 'c': b'\xff' if d % 2 else 'c'}
        quiet(mon, codec.encode, data)
        quiet(mon, codec.decode, data)
    elif op == 'half':
        # iterations given up
        for method in ('__iter__', 'keys', 'values', 'items', 'iterkeys', 'itervalues', 'iteritems'):
            if hasattr(o, method):
                it = iter(getattr(o, method)())
                next(it, None)
                if c % 2 and hasattr(it, 'throw'):
                    quiet(mon, it.throw, ValueError(Val('argument')))
    elif op == 'prop' and hasattr(type(o), 'prop'):
        if c % 3 == 0:
            o.prop
        elif c % 3 == 1:
            vars(o).pop('_prop', None)
        else:
            quiet(mon, getattr, o, 'badprop')
        o.logged(Val('argument'))
    elif op == 'keytext' and free(k):
        key = Text(k)
        w.reg(key, 'final')
        quiet(mon, o.__setitem__, key, w.child(c))
        key = Text(k)
        w.reg(key, 'final')
        quiet(mon, o.__getitem__, key)


def events(w, mon, o, b, c, d):
    me = w.number(o)
    bound = w.bound.setdefault(me, [])
    r = c % 9
    event = pick(['happened', 'evattr', 'evlist'], b)
    if r in (0, 1):
        s = Val('subscriber' if d % 4 else 'raising')
        o.bind(**{event: s})
        bound.append((event, len(REG) - 1))
    elif r == 2:
        o.unbind(event=event)
        w.bound[me] = [x for x in bound if x[0] != event]
    elif r == 3 and bound:
        ev, number = pick(bound, d)
        if d % 2:
            o.unbind(event=ev, subscriber=REG[number][1]())
            bound.remove((ev, number))
        else:
            o.unbind(subscriber=REG[number][1]())
            w.bound[me] = [x for x in bound if x[1] != number]
    elif r == 4:
        if d % 3 == 0:
            o.unbind()
            w.bound[me] = []
    elif r == 5:
        quiet(mon, o.dispatch, event, Val('argument'), key=Val('argument'))
        quiet(mon, o.dispatch, 'unknown', Val('argument'))
        quiet(mon, o.bind, nothing=Val('argument'))
    elif r == 6:
        quiet(mon, setattr, o, pick(['evattr', 'evlist'], d), Val())
    elif r == 7:
        quiet(mon, delattr, o, pick(['evattr', 'evlist'], d))
    else:
        try:
            with suppress_events(pick([event, [event, 'x'], ('happened',)], d)) if d % 2 else suppress_events():
                o.dispatch(event, Val('argument'))
                o.evlist = Val()
                if d % 3:
                    raise KeyError(Val('argument'))
        except (KeyError, ZeroDivisionError):
            pass
