"""P34: cached instance properties are computed once per instance; debug logging is transparent.

Lockstep monitor over random class hierarchies of counted, failing and nested
properties, and over decorated functions compared with the plain function.
"""
import logging
from kit import *
from node.utils import debug
from node.utils import instance_property

ANCHORS = ['src/node/utils.py']
RULE = ('a case is a class hierarchy with instance properties (plain classes, nodes, classes with __getattr__), 1-5 instances '
        'and 15-60 reads, failures, presets and resets, mixed with calls of logged functions; non-trivial: values agreed')
QUICK, THOROUGH = 5000, 120000
MIN = {'first': 15000, 'again': 40000, 'failed': 4000, 'falsy': 8000, 'preset': 2000, 'reset': 2000, 'nested': 2000,
       'calls': 15000, 'raising-calls': 3000, 'other-instance': 3000, 'writes': 2000}
ASSUMPTIONS = ['properties of different names in one class hierarchy', 'instances have a dictionary',
               'arguments and results of logged functions can be represented as text']


class Boom(Exception):
    pass


VALUES = [None, 0, '', False, (), 'text', 7, UNSET, [], {}, object, 1.5]
PROPS = ['one', 'two', 'three', 'children_', '_hidden']


def hierarchy(kind, log, ctrl):
    """A class with the properties; ``log`` gets (id of the instance, name)."""

    def prop(name, needs=None):
        def compute(self):
            """Documented."""
            log.append((id(self), name))
            if ctrl['fail'] is not None:
                raise ctrl['fail']
            if needs is not None:
                ctrl['seen'].append(getattr(self, needs))
            return ctrl['value']
        compute.__name__ = name
        return instance_property(compute)

    if kind == 'node':
        class Base(BaseNode):
            allow_non_node_childs = True
    elif kind == 'getattr':
        class Base(object):
            def __getattr__(self, name):
                raise AttributeError(name)
    elif kind == 'getattr-any':
        class Base(object):
            def __getattr__(self, name):
                return 'anything'
    elif kind == 'getattr-uses':
        class Base(object):
            def __getattr__(self, name):
                # needs a property itself
                if name.startswith('_'):
                    raise AttributeError(name)
                return self.one
    elif kind == 'children':
        @plumbing(GetattrChildren, Adopt, DefaultInit, Nodify, OdictStorage)
        class Base(object):
            pass
    elif kind == 'equal':
        class Base(object):
            def __eq__(self, other):
                return True

            def __hash__(self):
                return 1
    else:
        class Base(object):
            pass

    class First(Base):
        one = prop('one')
        two = prop('two', 'one')

    class Second(First):
        three = prop('three', 'two')
        children_ = prop('children_')
        _hidden = prop('_hidden')

    return Second


NEEDS = {'two': 'one', 'three': 'two'}
KINDS = ['plain', 'node', 'getattr', 'getattr-any', 'getattr-uses', 'children', 'equal']
W = {'read': 20, 'new': 3, 'fail': 4, 'preset': 3, 'reset': 3, 'others': 3, 'write': 2, 'call': 12, 'class': 1}


def gen(rng, i, tier):
    return {'cfg': {'kind': KINDS[i % len(KINDS)], 'level': rng.choice([logging.DEBUG, logging.WARNING])},
            'ops': gen_ops(rng, W, 15, 60, 4)}


class Records(logging.Handler):

    def __init__(self):
        logging.Handler.__init__(self)
        self.records = []

    def emit(self, record):
        self.records.append(record.getMessage())


def run(case, mon):
    logger = logging.getLogger('node')
    handler = Records()
    level, propagate = logger.level, logger.propagate
    logger.addHandler(handler)
    logger.setLevel(case['cfg']['level'])
    logger.propagate = False
    try:
        _run(case, mon, handler)
    finally:
        logger.removeHandler(handler)
        logger.setLevel(level)
        logger.propagate = propagate


def _run(case, mon, handler):
    log, ctrl = [], {'fail': None, 'value': None, 'seen': []}
    cls = hierarchy(case['cfg']['kind'], log, ctrl)
    objs = [cls()]
    have = [{}]
    serial = [0]

    def value(r):
        serial[0] += 1
        return pick(VALUES, r // 3) if r % 3 else ['fresh', serial[0]]

    def expected(i, name):
        """Names computed by reading ``name``, outermost first."""
        if name in have[i]:
            return []
        return [name] + (expected(i, NEEDS[name]) if name in NEEDS else [])

    def read(i, name, v):
        exp = expected(i, name)
        del log[:]
        ctrl['value'], ctrl['seen'] = v, []
        got = ok(mon, 'read', 'reading ' + name, getattr, objs[i], name)
        mon.eq(log, [(id(objs[i]), x) for x in exp], 'computed', 'computed by reading {} of instance {}'.format(name, i))
        if exp:
            mon.ev('first')
            mon.ev('nested', len(exp) > 1)
            for x in exp:
                have[i][x] = v
            mon.is_(got, v, 'value', 'first read of', name)
        else:
            mon.ev('again')
            mon.is_(got, have[i][name], 'value', 'repeated read of', name)
        mon.ev('falsy', not got)

    for op, a, b, c, d in case['ops']:
        i = a % len(objs)
        o, name = objs[i], pick(PROPS, b)
        mon.note(op, i, name)
        if op == 'new' and len(objs) < 5:
            objs.append(cls())
            have.append({})
        elif op == 'read':
            for z in range(1 + d % 3):
                read(i, name, value(c + z))
        elif op == 'others':
            for j in range(len(objs)):
                mon.ev('other-instance')
                read(j, name, value(c + j))
        elif op == 'fail':
            exp = expected(i, name)
            exc = pick([Boom('x'), KeyError('x'), ValueError('x'), TypeError('x'), RuntimeError('x'), IndexError()], c)
            ctrl['fail'] = exc
            del log[:]
            state, got = outcome(getattr, o, name)
            ctrl['fail'] = None
            if exp:
                mon.ev('failed')
                mon.true(state == 'exc' and got is exc, 'failing', 'expected', exc, 'got', got)
                mon.eq(len(log), 1, 'computed', 'computations of a failing property')
                # nothing is kept
                read(i, name, value(d))
            else:
                mon.true(state == 'ok' and got is have[i][name], 'value', 'known value of', name, got)
        elif op == 'preset':
            # documented: kept as attribute with the prefix _
            mon.ev('preset')
            v = value(c)
            setattr(o, '_' + name, v)
            have[i][name] = v
            read(i, name, value(d))
        elif op == 'reset' and name in have[i]:
            mon.ev('reset')
            delattr(o, '_' + name)
            del have[i][name]
            read(i, name, value(c))
        elif op == 'write':
            mon.ev('writes')
            raises(mon, AttributeError, 'read-only', 'setting ' + name, setattr, o, name, 5)
            raises(mon, AttributeError, 'read-only', 'deleting ' + name, delattr, o, name)
        elif op == 'class':
            p = getattr(cls, name)
            mon.true(isinstance(p, property), 'class', 'on the class', p)
            mon.eq(p.__doc__, 'Documented.', 'class', 'documentation')
        elif op == 'call':
            call(mon, handler, value, a, b, c, d)
        mon.state((case['cfg']['kind'], len(objs), tuple(sorted(have[i]))))
    for i in range(len(objs)):
        for name in PROPS:
            read(i, name, value(i))
            read(i, name, value(i + 1))


def call(mon, handler, value, a, b, c, d):
    """A logged function behaves like the plain one."""
    got = []
    result = value(a)
    exc = pick([Boom('x'), KeyError('k'), StopIteration(), AttributeError('a'), None], d // 3) if d % 3 == 0 else None

    def plain(*args, **kw):
        """Documented."""
        got.append((args, kw))
        if exc is not None:
            raise exc
        return result

    class Holder(object):
        method = debug(plain)

    logged = debug(plain)
    args = tuple(value(b + z) for z in range(b % 4))
    kw = dict((k, value(c + z)) for z, k in enumerate(['a', 'func', 'args', 'kws', 'x'][:c % 6]))
    mon.ev('calls')
    before = len(handler.records)
    if a % 2:
        holder = Holder()
        state, val = outcome(holder.method, *args, **kw)
        args = (holder,) + args
    else:
        state, val = outcome(logged, *args, **kw)
    mon.eq(len(got), 1, 'calls', 'calls of the logged function')
    mon.true(same_seq(got[0][0], args), 'arguments', 'positional arguments', got[0][0], 'expected', args)
    mon.true(sorted(got[0][1]) == sorted(kw) and all(got[0][1][k] is kw[k] for k in kw), 'arguments', 'keyword arguments',
             got[0][1], 'expected', kw)
    if exc is not None:
        mon.ev('raising-calls')
        mon.true(state == 'exc' and val is exc, 'result', 'expected', exc, 'got', val)
    else:
        mon.true(state == 'ok' and val is result, 'result', 'expected', result, 'got', val)
    mon.eq(logged.__doc__, 'Documented.', 'documentation', 'of a logged function')
    if logging.getLogger('node').isEnabledFor(logging.DEBUG):
        mon.true(any('plain' in r for r in handler.records[before:]), 'records', 'call is not logged')
    else:
        mon.eq(len(handler.records), before, 'records', 'log records')
