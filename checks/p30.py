"""P30: the mapping contract tester accepts conforming and flags broken mappings.

The tester is run on classes composed at random, which conform, and on the same
classes with one contract method replaced by one which misbehaves.
"""
from kit import *
from node.testing.base import BaseTester
from node.testing.base import ContractError
from node.testing.fullmapping import FullMappingTester

ANCHORS = ['src/node/testing/fullmapping.py', 'src/node/testing/base.py']
RULE = ('a case is one composition of behaviors with the tester run on it as it is and with up to 12 misbehaving contract '
        'methods; non-trivial: a run of the whole contract')
QUICK, THOROUGH = 1500, 30000
MIN = {'conforming': 2500, 'broken': 8000, 'raises': 2500, 'wrong': 4000, 'context': 700, 'no-node': 100, 'results': 10000,
       'repeated': 2500, 'methods': 8000}
ASSUMPTIONS = ['one method misbehaves at a time']

CONTRACT = ['__setitem__', '__getitem__', 'get', '__iter__', 'keys', 'iterkeys', 'values', 'itervalues', 'items',
            'iteritems', '__contains__', 'has_key', '__len__', 'update', '__delitem__', 'copy', 'setdefault', 'pop',
            'popitem', 'clear']
ERRORS = [RuntimeError, ValueError, TypeError, AttributeError, IndexError, ZeroDivisionError, NotImplementedError, KeyError,
          LookupError, AssertionError, OSError, StopIteration, Exception]
OVER = [UnicodeAware, Alias, Events, Fallback, AsAttrAccess, Lifecycle, Nodespaces]


# method -> misbehaviors: f(orig, self, *args) ; the key 'foo' is in the mapping whenever the script asks for results
WRONG = {
    'get': [
        lambda o, s, k, d=None: d,
        lambda o, s, k, d=None: o(s, k),
        lambda o, s, k, d=None: o(s, 'foo'),
        lambda o, s, k, d=None: s[k],
    ],
    '__iter__': [
        lambda o, s: iter(list(o(s))[1:]),
        lambda o, s: iter(list(o(s)) + ['zzz']),
        lambda o, s: iter([k + '_' for k in o(s)]),
        lambda o, s: iter(()),
        lambda o, s: iter(list(o(s)) * 2),
    ],
    'keys': [
        lambda o, s: o(s)[1:],
        lambda o, s: o(s) + ['zzz'],
        lambda o, s: [],
        lambda o, s: [k.upper() for k in o(s)],
        lambda o, s: s.values(),
        lambda o, s: None,
    ],
    'values': [
        lambda o, s: o(s)[1:],
        lambda o, s: o(s) + o(s),
        lambda o, s: [],
        lambda o, s: None,
        lambda o, s: 7,
    ],
    'items': [
        lambda o, s: o(s)[1:],
        lambda o, s: o(s) + [('zzz', None)],
        lambda o, s: [],
        lambda o, s: [(k, type(s)()) for k, v in o(s)],
        lambda o, s: [(v, k) for k, v in o(s)],
        lambda o, s: [(k, s['foo']) for k, v in o(s)],
        lambda o, s: s.keys(),
    ],
    '__contains__': [
        lambda o, s, k: False,
        lambda o, s, k: True,
        lambda o, s, k: not o(s, k),
        lambda o, s, k: k == 'foo',
    ],
    'has_key': [
        lambda o, s, k: False,
        lambda o, s, k: None,
        lambda o, s, k: not o(s, k),
        lambda o, s, k: k == 'bar',
    ],
    '__len__': [
        lambda o, s: 0,
        lambda o, s: o(s) + 1,
        lambda o, s: 1,
    ],
    'update': [
        lambda o, s, *a, **k: None,
        lambda o, s, *a, **k: o(s, *a),
        lambda o, s, *a, **k: o(s, **k) if len(a) < 2 else o(s, *a, **k),
        lambda o, s, *a, **k: o(s, *a[:1], **k),
        lambda o, s, *a, **k: o(s, [(x, type(s)()) for x, y in a[0]] if isinstance(a[0], tuple) else a[0], **k),
        lambda o, s, *a, **k: o(s, a[0], **{x: type(s)() for x in k}) if len(a) < 2 else o(s, *a),
    ],
    '__delitem__': [
        lambda o, s, k: None,
        lambda o, s, k: o(s, 'foo') if k == 'bar' else o(s, k),
        lambda o, s, k: [o(s, x) for x in list(s.keys())] and None,
    ],
    'copy': [
        lambda o, s: s,
        lambda o, s: type(s)(),
        lambda o, s: None,
        lambda o, s: {'foo': 1},
    ],
    'setdefault': [
        lambda o, s, k, d=None: (s.__setitem__(k, d), d)[1],
        lambda o, s, k, d=None: d,
        lambda o, s, k, d=None: s[k] if k in s else d,
        lambda o, s, k, d=None: o(s, k, type(s)()),
        lambda o, s, k, d=None: s.get(k),
        lambda o, s, k, d=None: (o(s, k, d), None)[1],
    ],
    'pop': [
        lambda o, s, k, d=None: o(s, k, d),
        lambda o, s, k, *d: o(s, k),
        lambda o, s, k, *d: s[k] if k in s else o(s, k, *d),
        lambda o, s, k, *d: (o(s, k, *d), None)[1],
        lambda o, s, k, *d: (o(s, k), s.clear())[0] if not d else o(s, k, *d),
        lambda o, s, k, *d: (o(s, 'bar'), s['foo'])[1] if k == 'foo' else o(s, k, *d),
    ],
    'popitem': [
        lambda o, s: o(s) if len(s.keys()) else None,
        lambda o, s: [(k, s[k]) for k in s.keys()][-1] if len(s.keys()) else o(s),
        lambda o, s: (o(s), s.clear())[0],
    ],
    'clear': [
        lambda o, s: None,
        lambda o, s: s.__delitem__('foo'),
    ],
}
WRONG['iterkeys'] = WRONG['__iter__']
WRONG['itervalues'] = [
    lambda o, s: iter(list(o(s))[1:]),
    lambda o, s: iter(list(o(s)) * 2),
    lambda o, s: iter(()),
    lambda o, s: None,
]
WRONG['iteritems'] = [
    lambda o, s: iter(list(o(s))[1:]),
    lambda o, s: iter(list(o(s)) + [('zzz', None)]),
    lambda o, s: iter(()),
    lambda o, s: iter([(k, type(s)()) for k, v in o(s)]),
    lambda o, s: iter([(k, s['foo']) for k, v in o(s)]),
]
# only where the names of children are looked at
WRONG_NODE = {
    '__getitem__': [lambda o, s, k: o(s, 'foo'), lambda o, s, k: renamed(o(s, k), 'no', s)],
    'values': [lambda o, s: [type(s)(name='no') for v in o(s)]],
    'itervalues': [lambda o, s: iter([type(s)(name='no') for v in o(s)])],
    'copy': [lambda o, s: renamed(o(s), 'other', s.__parent__), lambda o, s: renamed(o(s), s.__name__, None)],
}


def renamed(node, name, parent):
    node.__name__ = name
    node.__parent__ = parent
    return node


def gen(rng, i, tier):
    muts = [[rng.randrange(R), rng.randrange(R), rng.randrange(R)] for _ in range(rng.randint(3, 12))]
    return {'cfg': {'base': rng.randrange(R), 'over': [j for j in range(len(OVER)) if rng.random() < .2],
                    'cache': rng.random() < .15, 'context': rng.random() < .4, 'pure': rng.random() < .15,
                    'checks': rng.random() < .7},
            'ops': muts}


STORAGES = [DictStorage, OdictStorage]


def compose(cfg):
    """(class, children are named nodes)"""
    r = cfg['base']
    if cfg['pure']:
        kind = r % 3
        if kind == 1:
            return type('Own', (PureDictMapping,), {}), False
        if kind == 2:
            return type('Own', (PureOdictMapping,), {}), False
        return type('Own', (UserMapping,), {}), False
    base = r % 8
    if base == 0:
        cls = VBaseNode
    elif base == 1:
        cls = VOrderedNode
    elif base == 2:
        cls = Node
    elif base == 3:
        cls = AttributedNode
    elif base == 4:
        cls = AbstractOwn
    elif base == 5:
        cls = NodeAttributes
    else:
        parts = [Adopt, DefaultInit, Nodify, STORAGES[r // 8 % 2]]
        if r // 16 % 3 == 0:
            parts.insert(0, NodeChildValidate)
        if r // 48 % 3 == 0:
            parts.insert(1, Reference)
        elif r // 48 % 3 == 1:
            parts.insert(1, Order)
        cls = plumbing(*parts)(type('Own', (object,), {}))
    over = [OVER[j] for j in cfg['over']]
    if cfg['cache']:
        over += [Cache, Invalidate]
    if over:
        try:
            cls = plumbing(*over)(type('Over', (cls,), {}))
        except Exception:
            raise Violation('composition', 'refused: {}'.format(over))
    return cls, True


@plumbing(Adopt)
class AbstractOwn(AbstractNode):
    """The four primitives by hand."""
    __name__ = None
    __parent__ = None

    def __init__(self, name=None, parent=None):
        self.__name__ = name
        self.__parent__ = parent
        self._own = []

    def __getitem__(self, key):
        for k, v in self._own:
            if k == key:
                return v
        raise KeyError(key)

    def __setitem__(self, key, val):
        self._own = [x for x in self._own if x[0] != key] + [(key, val)]

    def __delitem__(self, key):
        self[key]
        self._own = [x for x in self._own if x[0] != key]

    def __iter__(self):
        return iter([k for k, v in self._own])

    def copy(self):
        new = type(self)(self.__name__, self.__parent__)
        new._own = list(self._own)
        return new


def run_tester(mon, cls, checks, context):
    kw = {}
    if context:
        kw['context'] = cls()
    t = FullMappingTester(cls, node_checks=checks, **kw)
    ok(mon, 'run', 'run', t.run)
    mon.ev('results')
    mon.eq(list(t.results.keys()), CONTRACT, 'results', 'one result per contract method, in order')
    for k, v in t.results.items():
        mon.ev('methods')
        mon.true(isinstance(v, str) and (v == 'OK' or v.startswith('failed: ')), 'results', 'result of', k, 'is', v)
    text = ok(mon, 'results', 'combined', lambda: t.combined)
    mon.eq(text.split('\n')[0].split(':')[0], '``__contains__``', 'results', 'combined')
    for k, v in t.results.items():
        mon.true('``{}``: {}'.format(k, v) in text, 'results', 'combined lacks', k)
    return t


def failed(t):
    return [k for k, v in t.results.items() if v != 'OK']


def mutant(cls, method, fn):
    """cls with one method replaced"""
    orig = getattr(cls, method)

    def replaced(self, *args, **kw):
        return fn(orig, self, *args, **kw)
    replaced.__name__ = method
    return type('Broken', (cls,), {method: replaced})


def run(case, mon):
    cfg = case['cfg']
    cls, named = compose(cfg)
    checks = named and cfg['checks']
    mon.ev('no-node', not named)
    t = None
    for turn in range(2):
        mon.ev('conforming')
        mon.ev('context', cfg['context'])
        t = run_tester(mon, cls, checks, cfg['context'])
        mon.eq(failed(t), [], 'conforming', cls.__mro__[:3], dict(t.results))
    # the same tester again: the mapping is empty, as before
    mon.eq(take(t.context), [], 'conforming', 'left behind')
    ok(mon, 'run', 'run', t.run)
    mon.eq(failed(t), [], 'conforming', 'second run of one tester')
    mon.eq(list(t.results.keys()), CONTRACT, 'results', 'second run of one tester')
    mon.nontrivial.add(hash(('ok', str(cfg))))
    for a, b, c in case['ops']:
        method = pick(CONTRACT, a)
        wrong = list(WRONG.get(method, []))
        if checks:
            wrong += WRONG_NODE.get(method, [])
        if b % 3 == 0 or not wrong:
            error = pick(ERRORS, c)
            mon.ev('raises')

            def fn(o, s, *args, **kw):
                raise error('broken')
            how = error.__name__
        else:
            mon.ev('wrong')
            how = c % len(wrong)
            fn = wrong[how]
        mon.note(method, how)
        broken = mutant(cls, method, fn)
        mon.ev('broken')
        first = run_tester(mon, broken, checks, cfg['context'])
        bad = failed(first)
        mon.true(method in bad, 'undetected', method, how, 'of', cls.__mro__[:3], 'reported', bad)
        mon.nontrivial.add(hash((method, str(how), str(cfg))))
        mon.state((method, str(how), tuple(bad), checks))
        if a % 4 == 0:
            mon.ev('repeated')
            again = run_tester(mon, broken, checks, cfg['context'])
            mon.eq(failed(again), bad, 'repeated', 'failed methods of a second run')
    mon.ev('repeated')


def fixed(mon):

    def testers():
        class Tester(BaseTester):
            iface_contract = ['b', 'a', 'c']

            def test_a(self):
                raise RuntimeError('no')

            def test_b(self):
                self.context['x'] = 1

            def test_c(self):
                if self.context['x'] != 1:
                    raise Exception('wrong')

        t = Tester(dict)
        t.run()
        mon.eq(list(t.results.items()), [('b', 'OK'), ('a', "failed: RuntimeError('no')"), ('c', 'OK')], 'results', 'own')
        mon.eq(t.context, {'x': 1}, 'results', 'context')
        other = Tester(dict)
        mon.eq(list(other.results), [], 'results', 'of another tester')
        t.run()
        mon.eq(list(t.results.keys()), ['b', 'a', 'c'], 'results', 'run again')

        class Direct(Tester):
            direct_error = True
        d = Direct(dict)
        raises(mon, RuntimeError, 'direct', 'run', d.run)
        mon.eq(list(d.results.items()), [('b', 'OK')], 'direct', 'results')

        class Incomplete(Tester):
            iface_contract = ['b', 'zzz', 'a']
        raises(mon, ContractError, 'incomplete', 'run', Incomplete(dict).run)
    yield 'testers', testers
