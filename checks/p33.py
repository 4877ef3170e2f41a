"""P33: errors of a data source reach the caller, never mistaken for missing keys.

The lowest behavior of a random composition is a storage which fails on
demand, at the n-th use, with errors of many kinds. If it failed during an
operation, exactly that error has to leave the operation; otherwise the
operation has to succeed. Afterwards the node has to agree with the storage.
"""
import rt
from kit import *
from node.behaviors.alias import PrefixAliaser
from node.serializer import serialize
from node.utils import AttributeAccess
from node.utils import ReverseMapping
from node.utils import node_by_path
from node.utils import StrCodec

ANCHORS = ['src/node/behaviors/mapping.py', 'src/node/behaviors/nodify.py', 'src/node/behaviors/common.py',
           'src/node/behaviors/cache.py', 'src/node/behaviors/alias.py', 'src/node/behaviors/fallback.py',
           'src/node/behaviors/lifecycle.py', 'src/node/behaviors/nodespace.py', 'src/node/behaviors/reference.py',
           'src/node/behaviors/attributes.py', 'src/node/utils.py', 'src/node/serializer.py']
RULE = ('a case is a random composition of behaviors above a failing storage and 15-60 operations, most of them with a '
        'failure scheduled at the n-th use of the storage; non-trivial: a failure reached the caller')
QUICK, THOROUGH = 4000, 100000
MIN = {'fired': 20000, 'fired.get': 8000, 'fired.set': 1500, 'fired.del': 1500, 'fired.iter': 3000, 'fired.alias': 300, 'not-fired': 10000,
       'refused-write': 1500, 'retried': 15000, 'compositions': 300, 'fallback': 300, 'fallback-own': 80, 'interrupt': 2000}
ASSUMPTIONS = ['KeyError means that the key is missing and is not among the injected errors',
               'an edit of several keys may have been done in part']


class Boom(Exception):
    pass


class Interrupt(BaseException):
    pass


class Faulty(Behavior):
    """Storage failing on demand."""

    @default
    def raw(self):
        d = self.__dict__
        if 'raw_state' not in d:
            d['raw_state'] = {'data': odict(), 'plan': None, 'fired': [], 'uses': 0}
        return d['raw_state']

    @default
    def use(self, kind):
        r = self.raw()
        r['uses'] += 1
        plan = r['plan']
        if plan is None or kind not in plan['kinds']:
            return
        if plan['skip'] > 0:
            plan['skip'] -= 1
            return
        r['fired'].append(kind)
        if plan['once']:
            r['plan'] = None
        raise plan['exc']

    @override
    def __getitem__(self, key):
        self.use('get')
        return self.raw()['data'][key]

    @override
    def __setitem__(self, key, val):
        self.use('set')
        self.raw()['data'][key] = val

    @override
    def __delitem__(self, key):
        if key not in self.raw()['data']:
            raise KeyError(key)
        self.use('del')
        del self.raw()['data'][key]

    @override
    def __iter__(self):
        for key in list(self.raw()['data']):
            self.use('iter')
            yield key
        self.use('iter')


class FaultyContains(Behavior):

    @override
    def __contains__(self, key):
        self.use('get')
        return key in self.raw()['data']


class Prefix(Behavior):
    aliaser = default(PrefixAliaser('x'))


class FaultyAliaser(PrefixAliaser):

    def __init__(self, node):
        PrefixAliaser.__init__(self, 'x')
        self.node = node

    def alias(self, key):
        self.node.use('alias')
        return PrefixAliaser.alias(self, key)

    def unalias(self, key):
        self.node.use('alias')
        return PrefixAliaser.unalias(self, key)


class FailingPrefix(Behavior):

    @default
    @property
    def aliaser(self):
        return FaultyAliaser(self)


class LazyInvalidate(Behavior):

    @default
    def invalidate(self, key=None):
        if key is not None and key not in self.raw()['data']:
            raise KeyError(key)


class Leaf(VNode):
    pass


MISSING = object()
KEYS = ['k0', 'k1', 'k2', 'k3']


class Factories(Behavior):
    factories = default(odict((k, Leaf) for k in KEYS))


PARTS = {
    'validate': (NodeChildValidate,), 'adopt': (Adopt,), 'unicode': (UnicodeAware,), 'alias': (FailingPrefix, Alias),
    'lifecycle': (Lifecycle,), 'nodespaces': (Nodespaces,), 'attributes': (Nodespaces, Attributes),
    'asattr': (AsAttrAccess,), 'cache': (Cache, LazyInvalidate), 'fallback': (Fallback,), 'reference': (Reference,),
    'events': (Events,), 'uuid': (UUIDAware,), 'factory': (Factories, ChildFactory), 'getattr': (GetattrChildren,),
    'contains': (),
}
NAMES = sorted(PARTS)
_built = {}


def build(names):
    key = tuple(names)
    if key not in _built:
        parts = []
        for n in names:
            for b in PARTS[n]:
                if b not in parts:
                    parts.append(b)
        low = (DefaultInit, Nodify) + ((FaultyContains,) if 'contains' in names else ()) + (Faulty,)
        _built[key] = plumbing(*(tuple(parts) + low))(type('Composed', (object,), {}))
    return _built[key]


W = {'item': 8, 'get': 8, 'getdefault': 5, 'in': 8, 'has_key': 3, 'set': 8, 'setdefault': 4, 'update': 3, 'del': 6,
     'pop': 5, 'popdefault': 4, 'popitem': 3, 'detach': 5, 'clear': 1, 'keys': 2, 'values': 2, 'items': 2, 'len': 3,
     'iterkeys': 2, 'itervalues': 2, 'iteritems': 2, 'filtered': 2, 'treerepr': 2, 'path': 3, 'attr': 4, 'setattr': 2,
     'reverse': 3, 'codec': 2, 'serialize': 2, 'fallback': 4, 'aslist': 1, 'getattr': 3, 'invalidate': 2, 'nodelookup': 2, 'nested': 6}
SINGLE = ('set', 'setdefault', 'del', 'pop', 'popdefault', 'detach', 'popitem', 'setattr')


def gen(rng, i, tier):
    names = rng.sample(NAMES, rng.choice([0, 1, 1, 2, 2, 3, 4, 5]))
    if rng.random() < .15:
        names = ['adopt', 'fallback'] + [n for n in names if n in ('lifecycle', 'cache', 'unicode', 'nodespaces', 'uuid', 'alias')]
    if 'reference' in names and 'uuid' in names:
        names.remove('uuid')
    if 'contains' in names and ('alias' in names or 'factory' in names):
        names.remove('contains')
    if 'factory' in names and 'alias' in names:
        names.remove('alias')
    if 'alias' in names and any(n in names for n in ('reference', 'lifecycle', 'fallback')):
        # these read keys of their own node, they belong outside of the aliases
        names.remove('alias')
        names.append('alias')
    if 'getattr' in names:
        names = ['getattr'] + [n for n in names if n in ('adopt', 'alias', 'unicode', 'validate')]
    return {'cfg': {'names': names, 'style': style(rng) if 'factory' not in names else None, 'bury': rng.randrange(R)}, 'ops': gen_ops(rng, W, 15, 60, 5)}


def errors(r, names):
    pool = [Boom('injected'), ValueError('injected'), TypeError('injected'), RuntimeError('injected'), OSError(5, 'injected'),
            IndexError('injected'), LookupError('injected'), Interrupt('injected'), UnicodeDecodeError('utf-8', b'x', 0, 1, 'i'),
            AssertionError(), AttributeError('injected'), NotImplementedError('injected'), RecursionError('injected'),
            KeyboardInterrupt()]
    if 'getattr' in names:
        # this is how Python is told that an attribute does not exist
        pool = [e for e in pool if not isinstance(e, AttributeError)]
    return pick(pool, r)


def run(case, mon):
    names = case['cfg']['names']
    cls = build(names)
    mon.ev('compositions')
    node = cls(name='node')
    raw = node.raw()
    KS = styled(case['cfg'].get('style'), KEYS)
    if bury(node, case['cfg'].get('bury', 0)):
        mon.ev('inner')
    pre = 'x' if 'alias' in names else ''
    factory = 'factory' in names

    def fresh(r):
        if 'reference' in names or 'validate' in names or r % 3:
            return Leaf()
        return fresh_value(r // 3)

    def attempt(n, fn):
        """Run fn with the scheduled failure of n; True if it was seen."""
        r = n.raw()
        r['fired'] = []
        try:
            state, val = 'ok', fn()
        except (Violation, rt.CaseTimeout, rt.StepLimit):
            raise
        except BaseException as e:
            state, val = 'exc', e
        plan, fired = r['plan'], r['fired']
        r['plan'] = None
        return state, val, fired

    def contents():
        if factory:
            return
        got = ok(mon, 'after', 'reading all', lambda: [(k, node[k]) for k in take(node)])
        want = [(pre + k, v) for k, v in raw['data'].items()]
        mon.true(ident_pairs(got, want), 'after', 'node holds', got, 'but its storage', want)

    for op, a, b, c, d, e in case['ops']:
        real = pick(KS, a)
        key = pre + real
        have = real in raw['data'] or factory
        exc = errors(b // 84, names)
        kinds = pick([('get',), ('set',), ('del',), ('iter',), ('get', 'set', 'del', 'iter'), ('set', 'del'), ('get', 'iter'), ('alias',)], c)
        plan = {'kinds': kinds, 'skip': pick([0, 0, 0, 1, 2], d), 'once': d // 5 % 2, 'exc': exc} if e % 8 else None
        value = fresh(e)
        mon.note(op, key, 'plan', plan)
        target = node
        if factory and op in ('del', 'pop', 'popdefault', 'popitem', 'detach', 'clear', 'invalidate', 'path'):
            continue
        if 'reference' in names and op in ('set', 'update', 'setattr') and real in raw['data'] and c % 3:
            continue

        def call(op=op, value=value):
            """The operation itself and what is expected of it without failure."""
            if op == 'item':
                return (lambda: node[key]), (KeyError if not have else None)
            if op == 'get':
                return (lambda: node.get(key)), None
            if op == 'getdefault':
                return (lambda: node.get(key, MISSING)), None
            if op == 'in':
                return (lambda: key in node), None
            if op == 'has_key':
                return (lambda: node.has_key(key)), None
            if op == 'set':
                return (lambda: node.__setitem__(key, value)), None
            if op == 'setdefault':
                return (lambda: node.setdefault(key, value)), None
            if op == 'update':
                other = pre + pick(KS, a + 1)
                return (lambda: node.update([(key, value), (other, fresh(e + 1))])), None
            if op == 'del':
                return (lambda: node.__delitem__(key)), (KeyError if not have else None)
            if op == 'pop':
                return (lambda: node.pop(key)), (KeyError if not have else None)
            if op == 'popdefault':
                return (lambda: node.pop(key, MISSING)), None
            if op == 'popitem':
                return (lambda: node.popitem()), (KeyError if not raw['data'] else None)
            if op == 'detach':
                return (lambda: node.detach(key)), (KeyError if not have else None)
            if op == 'clear':
                return (lambda: node.clear()), None
            if op in ('keys', 'values', 'items'):
                return (lambda: getattr(node, op)()), None
            if op == 'len':
                return (lambda: len(node)), None
            if op in ('iterkeys', 'itervalues', 'iteritems'):
                return (lambda: take(getattr(node, op)())), None
            if op == 'filtered':
                return (lambda: node.filteredvalues(INode) if b % 2 else take(node.filtereditems(INode))), None
            if op == 'treerepr':
                return (lambda: node.treerepr()), None
            if op == 'path' and case['cfg'].get('style') in (None, 'text', 'long', 'far'):
                return (lambda: node_by_path(node, key)), (KeyError if not have else None)
            if op == 'attr':
                return (lambda: getattr(AttributeAccess(node), key)), (AttributeError if not have else None)
            if op == 'getattr' and 'getattr' in names:
                return (lambda: getattr(node, key)), ((AttributeError, KeyError) if not have else None)
            if op == 'setattr':
                return (lambda: setattr(AttributeAccess(node), key, value)), None
            if op == 'reverse':
                view, some = ReverseMapping(node), object()
                return pick([(lambda: view[some], KeyError), (lambda: view.get(some), None), (lambda: some in view, None),
                             (lambda: view.keys(), None), (lambda: view.items(), None), (lambda: len(view), None),
                             (lambda: take(view), None)], b // 7)
            if op == 'codec':
                return (lambda: StrCodec(soft=True).encode(node)), None
            if op == 'serialize' and all(INode.providedBy(v) for v in raw['data'].values()):
                return (lambda: serialize(node)), None
            if op == 'aslist':
                return (lambda: [x for x in node]), None
            if op == 'invalidate' and 'cache' in names and 'alias' not in names:
                return (lambda: node.invalidate(key) if b % 2 else node.invalidate()), (KeyError if b % 2 and not have else None)
            if op == 'nodelookup' and 'reference' in names:
                return (lambda: node.node(node.uuid)), None
            return None, None

        if op == 'fallback':
            if 'fallback' not in names or 'adopt' not in names or 'validate' in names or factory:
                continue
            # the failing storage is the one of the fallback child
            root, target, cur = cls(name='root'), cls(), cls()
            root.fallback_key = pre + 'fb'
            root[pre + 'fb'] = target
            root[pre + 'cur'] = cur
            leaf = Leaf()
            target[key] = leaf
            mon.ev('fallback')
            if b % 3 == 1:
                # the failing storage is the one of the asked node
                target = cur
                mon.ev('fallback-own')
                if b % 2:
                    cur[key] = leaf = Leaf()
            elif b % 3 == 2:
                # or the one of the root
                target = root
            if plan is not None:
                plan['kinds'] = ('get',)
            fn, wrong = (lambda: cur[key]), None
            sole = False
        elif op == 'nested':
            # the failing storage is the one of the child
            if factory:
                continue
            target = cls(name='child')
            for z in range(1 + d % 3):
                target[pre + KS[z]] = Leaf()
            key, real = pre + 'nest', 'nest'
            how = b // 3 % 6
            if how and 'nest' not in raw['data']:
                node[key] = target
            elif how:
                target = raw['data']['nest']
            elif 'nest' in raw['data']:
                continue
            mon.ev('nested')
            fn = pick([lambda: node.__setitem__(key, target), lambda: node.__delitem__(key), lambda: node.detach(key),
                       lambda: node.treerepr(), lambda: StrCodec(soft=True).encode(node), lambda: serialize(target)], how)
            wrong, sole = None, False
            if plan is not None:
                plan['kinds'] = pick([('get',), ('iter',), ('get', 'iter')], c)
        else:
            fn, wrong = call()
            if fn is None:
                continue
            sole = op in SINGLE
        before = list(raw['data'].items())
        target.raw()['plan'] = plan
        state, val, fired = attempt(target, fn)
        if fired:
            mon.ev('fired')
            mon.ev('fired.' + fired[0])
            if isinstance(exc, Interrupt) or isinstance(exc, KeyboardInterrupt):
                mon.ev('interrupt')
            mon.state((op, fired[0], type(exc).__name__))
            if state == 'ok':
                raise Violation('swallowed', '{} of {!r} returned {} though the storage failed with {!r}'.format(
                    op, key, short(val), exc))
            if val is not exc:
                raise Violation('changed', '{} of {!r} raised {!r} though the storage failed with {!r}'.format(op, key, val, exc))
            if sole and fired[0] in ('set', 'del'):
                mon.ev('refused-write')
                mon.true(ident_pairs(list(raw['data'].items()), before), 'partial', op, 'of', key, 'failed but left',
                         list(raw['data'].items()), 'instead of', before)
        else:
            mon.ev('not-fired')
        if op != 'nested':
            contents()
        if fired:
            # the storage is back
            mon.ev('retried')
            have = real in raw['data'] or factory
            if op == 'nested':
                # a child which was attached or removed in part is not judged
                raw['data'].pop('nest', None)
                continue
            if op != 'fallback':
                fn, wrong = call(value=fresh(e))
            state, val, fired = attempt(target, fn)
        if wrong is not None:
            mon.true(state == 'exc' and isinstance(val, wrong), 'result', op, 'of the missing key', key, 'gave', val)
        elif state == 'exc':
            raise Violation('result', '{} of {!r} raised {!r} though nothing failed'.format(op, key, val))
        elif op == 'fallback':
            mon.is_(val, leaf, 'result', 'fallback lookup')
        elif op in ('item', 'path', 'get', 'attr', 'getattr') and have and not factory:
            mon.is_(val, raw['data'][real], 'result', op)
        elif op in ('in', 'has_key'):
            mon.eq(val, have, 'result', op)
        elif op == 'get' and not have:
            mon.is_(val, None, 'result', op)
        contents()
