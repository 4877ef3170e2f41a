"""P15: lifecycle events match the edits actually made, exactly once each.

Trace checker: one handler for all object events appends to a log (kind,
object, container, key, and whether the edit is visible); after every
operation the log must be exactly what the reference history says.
"""
import zope.component
from kit import *
from node.interfaces import INodeAddedEvent
from node.interfaces import INodeCreatedEvent
from node.interfaces import INodeDetachedEvent
from node.interfaces import INodeModifiedEvent
from node.interfaces import INodeRemovedEvent
from zope.interface.interfaces import IObjectEvent
from node.events import NodeAddedEvent
from node.events import NodeDetachedEvent
from node.events import NodeRemovedEvent

ANCHORS = ['src/node/behaviors/lifecycle.py', 'src/node/events.py']
RULE = ('a case is a family of lifecycle compositions and 10-45 edits on up to 16 nodes in several trees, with failures '
        'injected above and below the lifecycle behavior; non-trivial: event log agreed with the edits')
QUICK, THOROUGH = 2500, 60000
MIN = {'event.created': 10000, 'event.added': 10000, 'event.removed': 2500, 'event.detached': 1500, 'failed': 4000,
       'after-failed-detach': 500, 'listener-edit': 500, 'journal': 200, 'several': 200, 'configured': 700}
ASSUMPTIONS = ['listeners do not raise', 'a listener reading the removed key is not served by a cache plumbed around the '
               'lifecycle behavior', 'replacing a child announces the added one only']


class Boom(Exception):
    pass


FAULT = {'where': None, 'exc': None}


class Faulty(Behavior):
    """Fails before the edit takes place."""

    @plumb
    def __setitem__(_next, self, key, val):
        if FAULT['where'] == 'below':
            raise FAULT['exc']
        _next(self, key, val)

    @plumb
    def __delitem__(_next, self, key):
        if FAULT['where'] == 'below':
            raise FAULT['exc']
        _next(self, key)
        journal = self.__dict__.get('journal')
        if journal is not None:
            # editing one node makes an entry in another one
            journal['j%d' % len(journal)] = journal.__class__()


class Outer(Behavior):

    @plumb
    def __setitem__(_next, self, key, val):
        if FAULT['where'] == 'above':
            raise FAULT['exc']
        _next(self, key, val)

    @plumb
    def __delitem__(_next, self, key):
        if FAULT['where'] == 'above':
            raise FAULT['exc']
        _next(self, key)


def make(*b, **dct):
    return plumbing(*b)(type('Composed', (object,), dct))


def sub(base, *b, **dct):
    return plumbing(*b)(type('Composed', (base,), dct))


class CustomAdded(NodeAddedEvent):
    pass


class CustomRemoved(NodeRemovedEvent):
    pass


class CustomDetached(NodeDetachedEvent):
    pass


CUSTOM = (CustomAdded, CustomRemoved, CustomDetached)
TABLE = [('added', CustomAdded), ('removed', CustomRemoved), ('detached', CustomDetached)]


class InitNode(LifecycleOrderedNode):
    """Adds children of its own while being created."""

    def __init__(self, name=None, parent=None):
        super(InitNode, self).__init__(name, parent)


FAMILIES = {
    'ordered': [make(Outer, Adopt, Lifecycle, Faulty, DefaultInit, Nodify, OdictStorage)],
    'outside': [make(Outer, Lifecycle, Faulty, Adopt, DefaultInit, Nodify, OdictStorage)],
    'dict': [make(Outer, Adopt, Lifecycle, Faulty, DefaultInit, Nodify, DictStorage)],
    'validate': [make(Outer, NodeChildValidate, Adopt, Lifecycle, Faulty, DefaultInit, Nodify, OdictStorage)],
    'validate-below': [make(Outer, Lifecycle, NodeChildValidate, Faulty, Adopt, DefaultInit, Nodify, OdictStorage)],
    'reference': [make(Outer, Adopt, Lifecycle, Faulty, Reference, Order, DefaultInit, Nodify, OdictStorage)],
    'reference-outside': [make(Outer, Adopt, Reference, Lifecycle, Faulty, Order, DefaultInit, Nodify, OdictStorage)],
    'node': [sub(Node, Outer, Lifecycle, Faulty)],
    'attributed': [sub(AttributedNode, Outer, Lifecycle, Faulty), sub(Node, Outer, Lifecycle, Faulty)],
    'cached': [make(Outer, Adopt, Lifecycle, Faulty, Cache, Invalidate, DefaultInit, Nodify, OdictStorage)],
    'cached-outside': [make(Outer, Adopt, Cache, Invalidate, Lifecycle, Faulty, DefaultInit, Nodify, OdictStorage)],
    'order': [make(Outer, Adopt, Order, Lifecycle, Faulty, DefaultInit, Nodify, OdictStorage)],
    'mixed': [make(Outer, Adopt, Lifecycle, Faulty, DefaultInit, Nodify, OdictStorage),
              make(Outer, Adopt, Faulty, DefaultInit, Nodify, OdictStorage)],
    'init': [sub(InitNode, Outer, Faulty)],
    'aliased': [make(Outer, Adopt, Lifecycle, Faulty, Alias, DefaultInit, Nodify, OdictStorage)],
}


def _custom():
    # the events table is a public attribute of lifecycle nodes
    cls = make(Outer, Adopt, Lifecycle, Faulty, DefaultInit, Nodify, OdictStorage)
    table = dict(cls.events, added=CustomAdded)
    return [make(Outer, Adopt, Lifecycle, Faulty, DefaultInit, Nodify, OdictStorage, events=table)]


FAMILIES['custom'] = _custom()
NAMES = sorted(FAMILIES)
W = {'new': 5, 'set': 14, 'over': 3, 'del': 5, 'pop': 4, 'detach': 7, 'popitem': 2, 'clear': 2, 'update': 3,
     'setdefault': 3, 'missing': 5, 'fault': 8, 'insert': 3, 'read': 2, 'value': 2, 'refuse': 2, 'journal': 1,
     'listener': 2, 'halfupdate': 1, 'swap': 1, 'table': 1}


def gen(rng, i, tier):
    return {'cfg': {'fam': NAMES[i % len(NAMES)], 'keys': rng.choice([2, 4, 6]),
                    'mood': rng.choice((None, None) + MOODS), 'style': style(rng),
                    'bury': rng.randrange(R)}, 'ops': gen_ops(rng, W, 10, 45, 5)}


KINDS = [('created', INodeCreatedEvent), ('detached', INodeDetachedEvent), ('removed', INodeRemovedEvent),
         ('added', INodeAddedEvent), ('modified', INodeModifiedEvent)]


class Watch(object):
    """Registered handler."""

    def __init__(self, mon):
        self.mon = mon
        self.log = []
        self.bad = []
        self.reads = True
        self.react = None

    def __call__(self, ob, event):
        kinds = [k for k, i in KINDS if i.providedBy(event)]
        if len(kinds) != 1:
            self.bad.append('event of kinds {}'.format(kinds))
            return
        kind = kinds[0]
        self.mon.ev('event.' + kind)
        entry = [kind, event.object]
        owner = event.newParent if kind == 'added' else event.oldParent if kind in ('removed', 'detached') else event.object
        table = getattr(owner, 'events', None)
        if isinstance(table, dict) and kind in table:
            if type(event) is not table[kind]:
                self.bad.append('event is a {}, the node has configured {}'.format(type(event), table[kind]))
            if table[kind] in CUSTOM:
                self.mon.ev('configured')
        if ob is not event.object:
            self.bad.append('handler called for {} with event of {}'.format(short(ob), short(event.object)))
        if kind == 'added':
            entry += [event.newParent, event.newName]
            if event.oldParent is not None or event.oldName is not None:
                self.bad.append('added event with an old location')
            if event.newParent is None or event.newParent.get(event.newName, self) is not event.object:
                self.bad.append('added event before the child can be read')
            elif event.newName not in take(event.newParent):
                self.bad.append('added event before the child is listed')
        elif kind in ('removed', 'detached'):
            entry += [event.oldParent, event.oldName]
            if event.newParent is not None or event.newName is not None:
                self.bad.append('{} event with a new location'.format(kind))
            # a cache around the lifecycle behavior is written last
            if event.oldParent is None or event.oldName in take(event.oldParent) or self.reads and \
                    event.oldParent.get(event.oldName, self) is not self:
                self.bad.append('{} event before the child is gone'.format(kind))
        else:
            entry += [None, None]
        self.log.append(entry)
        if self.react is not None:
            react, self.react = self.react, None
            react(kind, event)

    def take(self):
        out, self.log = self.log, []
        return out


def run(case, mon):
    gsm = zope.component.getGlobalSiteManager()
    watch = Watch(mon)
    watch.reads = case['cfg']['fam'] != 'cached-outside'
    gsm.registerHandler(watch, (None, IObjectEvent))
    try:
        play(case, mon, watch)
    finally:
        gsm.unregisterHandler(watch, (None, IObjectEvent))
        FAULT.update(where=None)


def named():
    return lambda: None


def play(case, mon, watch):
    cfg = case['cfg']
    fam = FAMILIES[cfg['fam']]
    obj, kids, up = [], [], []
    expected = []

    def is_lc(n):
        return hasattr(n, '_notify_suppress') or hasattr(type(n), 'events')

    def expect(kind, ob, parent=None, key=None):
        expected.append([kind, ob, parent, key])

    def new(r):
        if len(obj) >= 16:
            return None
        n = moody(pick(fam, r), cfg['mood'] if r // 8 % 3 else None)()
        if is_lc(n):
            expect('created', n)
        obj.append(n)
        kids.append(odict())
        up.append(None)
        return len(obj) - 1

    def below(i):
        out = [i]
        for k, j in kids[i].items():
            if isinstance(j, int):
                out += below(j)
        return out

    def compare(what):
        got = watch.take()
        mon.ev('comparisons')
        if watch.bad:
            raise Violation('event', '{}: {}'.format(what, watch.bad))
        okay = len(got) == len(expected) and all(
            g[0] == e[0] and g[1] is e[1] and g[2] is e[2] and g[3] == e[3] for g, e in zip(got, expected))
        if not okay:
            raise Violation('events', '{}: announced {} expected {}'.format(
                what, [(g[0], obj_name(g[1]), obj_name(g[2]), g[3]) for g in got],
                [(g[0], obj_name(g[1]), obj_name(g[2]), g[3]) for g in expected]))
        del expected[:]

    def obj_name(o):
        for n, x in enumerate(obj):
            if x is o:
                return 'node%d' % n
        return short(o, 40)

    def removed(i, k, kind='removed'):
        j = kids[i].pop(k)
        if isinstance(j, int):
            up[j] = None
        if is_lc(obj[i]):
            expect(kind, obj[j] if isinstance(j, int) else j[0], obj[i], k)
        return j

    def added(i, k, j):
        if k in kids[i] and isinstance(kids[i][k], int):
            up[kids[i][k]] = None
        kids[i][k] = j
        if isinstance(j, int):
            up[j] = (i, k)
        if is_lc(obj[i]):
            expect('added', obj[j] if isinstance(j, int) else j[0], obj[i], k)

    journal_of = {}
    spell = STYLES[cfg.get('style')]

    new(0)
    new(1)
    new(2)
    compare('creation')
    buried = bury(obj[0], cfg.get('bury', 0))
    if buried:
        mon.ev('inner')
    compare('attaching to a tree of other nodes')
    values_ok = cfg['fam'] in ('ordered', 'outside', 'dict', 'cached', 'cached-outside', 'order', 'custom', 'aliased',
                               'init')
    for op, a, b, c, d, e in case['ops']:
        n = len(obj)
        i, j, k = a % n, b % n, spell('k%d' % (c % cfg['keys']))
        o = obj[i]
        free = up[j] is None and i not in below(j) and (j or not buried)
        mon.note(op, i, j, k, d)
        what = op
        if op == 'new':
            new(b)
        elif op in ('set', 'update', 'setdefault', 'over'):
            if op == 'over' and kids[i]:
                k = pick(list(kids[i]), c)
            if not free:
                continue
            if op == 'setdefault':
                if k in kids[i]:
                    ok(mon, 'setdefault', 'setdefault', o.setdefault, k, obj[j])
                else:
                    ok(mon, 'set', 'setdefault', o.setdefault, k, obj[j])
                    added(i, k, j)
            elif op == 'update':
                x = new(b) if d % 3 == 0 else None
                if x is not None:
                    # several entries, maybe of the same key
                    compare('creation')
                    mon.ev('several')
                    kk = pick([k, spell('k%d' % (e % cfg['keys']))], d // 3)
                    ok(mon, 'set', 'update', o.update, [(k, obj[j]), (kk, obj[x])])
                    added(i, k, j)
                    added(i, kk, x)
                    compare('update with two entries')
                    continue
                if d % 2:
                    ok(mon, 'set', 'update', o.update, {k: obj[j]})
                else:
                    ok(mon, 'set', 'update', o.update, **{k: obj[j]})
                added(i, k, j)
            else:
                ok(mon, 'set', 'set', o.__setitem__, k, obj[j])
                added(i, k, j)
        elif op == 'table':
            # the events of this node only
            if is_lc(o):
                o.events = dict(o.events, **dict(TABLE[:1 + d % 3]))
            continue
        elif op == 'halfupdate':
            # the second of three entries is refused
            if cfg['fam'] in ('validate', 'validate-below') and free:
                raises(mon, ValueError, 'refuse', 'update', o.update, [(k, obj[j]), ('bad', 1), ('never', 2)])
                added(i, k, j)
        elif op in ('del', 'pop', 'detach', 'popitem', 'clear'):
            if not kids[i]:
                if op == 'clear':
                    ok(mon, 'delete', 'clear', o.clear)
                elif op == 'popitem':
                    raises(mon, KeyError, 'missing', 'popitem', o.popitem)
                compare(op)
                continue
            if i in journal_of and op != 'clear':
                del o.__dict__['journal']
                del journal_of[i]
            k = pick(list(kids[i]), c)
            if op == 'del':
                ok(mon, 'delete', 'del', o.__delitem__, k)
                removed(i, k)
            elif op == 'pop':
                ok(mon, 'delete', 'pop', o.pop, k)
                removed(i, k)
            elif op == 'detach':
                x = kids[i][k]
                got = ok(mon, 'delete', 'detach', o.detach, k)
                mon.is_(got, obj[x] if isinstance(x, int) else x[0], 'detach', 'result')
                removed(i, k, 'detached')
            elif op == 'popitem':
                k, got = ok(mon, 'delete', 'popitem', o.popitem)
                mon.true(k in kids[i], 'popitem', k)
                removed(i, k)
            else:
                if i in journal_of:
                    del o.__dict__['journal']
                    del journal_of[i]
                keys = take(o)
                ok(mon, 'delete', 'clear', o.clear)
                for k in keys:
                    removed(i, k)
        elif op == 'journal':
            # a node whose deletions write to another lifecycle node
            x = new(b)
            cand = [z for z in range(n) if any(isinstance(y, int) for y in kids[z].values()) and is_lc(obj[z])]
            if x is None or not cand or not is_lc(obj[x]) or 'j0' in kids[x] or cfg['fam'] == 'init':
                compare(op)
                continue
            i = pick(cand, c)
            o = obj[i]
            k = [z for z, y in kids[i].items() if isinstance(y, int)][0]
            compare(op)
            o.journal = obj[x]
            how = pick(['detach', 'del', 'pop'], d)
            ok(mon, 'delete', how, {'detach': o.detach, 'del': o.__delitem__, 'pop': o.pop}[how], k)
            del o.journal
            mon.ev('journal')
            leaf = obj[x]['j0']
            expect('created', leaf)
            expect('added', leaf, obj[x], 'j0')
            kids[x]['j0'] = (leaf,)
            if how == 'detach':
                removed(i, k, 'detached')
            else:
                removed(i, k)
            what = 'journal ' + how
        elif op == 'missing':
            k = pick(['nokey', k], d)
            if k in kids[i]:
                continue
            how = pick(['del', 'pop', 'detach', 'get', 'popdef'], e)
            mon.ev('failed')
            if how == 'get':
                mon.is_(o.get(k), None, 'get', k)
            elif how == 'popdef':
                mon.eq(o.pop(k, 5), 5, 'pop', k)
            else:
                fn = {'del': o.__delitem__, 'pop': o.pop, 'detach': o.detach}[how]
                raises(mon, KeyError, 'missing', how, fn, k)
                if how == 'detach':
                    mon.ev('after-failed-detach')
        elif op == 'fault':
            exc = pick([Boom(), ValueError('x'), KeyError('x'), AttributeError('x'), RuntimeError('x')], b)
            where = pick(['below', 'above'], d)
            mon.ev('failed')
            held = list(kids[i])
            how = pick(['set', 'del', 'pop', 'detach', 'clear', 'over', 'detach'], e)
            if how in ('del', 'pop', 'detach', 'clear', 'over') and not held:
                how = 'set'
            if how in ('set', 'over') and len(obj) >= 16:
                continue
            if how in ('set', 'over'):
                x = new(c)
                compare('creation')
                kk = pick(held, c) if how == 'over' else k
                fn, args = o.__setitem__, (kk, obj[x])
            elif how == 'clear':
                fn, args = o.clear, ()
            else:
                fn, args = {'del': o.__delitem__, 'pop': o.pop, 'detach': o.detach}[how], (pick(held, c),)
            if how == 'pop' and isinstance(exc, KeyError):
                exc = Boom()
            FAULT.update(where=where, exc=exc)
            state, val = outcome(fn, *args)
            FAULT.update(where=None)
            mon.true(state == 'exc' and type(val) is type(exc), 'fault', how, 'failing', where, 'with', exc, 'gave', val)
            if how == 'detach':
                mon.ev('after-failed-detach')
            what = 'failed {} ({})'.format(how, where)
        elif op == 'refuse':
            mon.ev('failed')
            if cfg['fam'] in ('validate', 'validate-below', 'node', 'attributed'):
                raises(mon, ValueError, 'refuse', 'setting a value', o.__setitem__, k, 1)
            elif cfg['fam'].startswith('reference') and kids[i]:
                x = [y for y in kids[i].values() if isinstance(y, int)]
                if x:
                    raises(mon, ValueError, 'refuse', 'attaching a node again', o.__setitem__, 'again', obj[x[0]])
        elif op == 'insert' and hasattr(o, 'insertfirst') and free and cfg['fam'] in ('order', 'reference', 'node',
                                                                                     'reference-outside'):
            if any(not isinstance(y, int) for y in kids[i].values()):
                continue
            obj[j].__name__ = 'i%d' % (c % 4)
            if obj[j].__name__ in kids[i]:
                raises(mon, KeyError, 'refuse', 'inserting a used name', o.insertlast, obj[j])
                mon.ev('failed')
                obj[j].__name__ = None
            else:
                fn = pick([o.insertfirst, o.insertlast], d)
                ok(mon, 'set', 'insert', fn, obj[j])
                added(i, 'i%d' % (c % 4), j)
        elif op == 'swap' and hasattr(o, 'swap') and len(kids[i]) > 1 and cfg['fam'] in ('order', 'node'):
            ks = [x for x, y in kids[i].items() if isinstance(y, int)]
            if len(ks) > 1:
                ok(mon, 'swap', 'swap', o.swap, o[ks[0]], o[ks[-1]])
        elif op == 'read':
            o.get(k)
            take(o.values())
            repr(o)
            o.treerepr()
            len(o)
            k in o
        elif op == 'value' and values_ok:
            # values may be functions, classes or other things with a name of their own
            v = pick([Value(), Value(), named(), type('Klass', (object,), {})], d)
            if d % 4 == 1:
                v.__name__, v.__parent__ = 'own', obj[0]
            k = 'v%d' % (c % 3)
            ok(mon, 'set', 'setting a value', o.__setitem__, k, v)
            added(i, k, (v,))
        elif op == 'listener':
            # the listener edits another node when it sees the event
            # (or the same one)
            x = i if b % 3 == 0 else new(b)
            y = new(b)
            compare('creation')
            if 'reaction' in kids[i] or x is None or y is None or not free or not is_lc(o) or not is_lc(obj[x]) or i == j:
                continue
            kk = 'free%d' % len(kids[i])
            if kk in kids[i]:
                continue
            how = pick(['set', 'detach'], d)

            def react(kind, event):
                if how == 'set':
                    obj[x]['reaction'] = obj[y]
                else:
                    obj[x]['reaction'] = obj[y]
                    obj[x].detach('reaction')
            if kids[i] and e % 2:
                z = pick(list(kids[i]), e)
                watch.react = react
                act = pick(['detach', 'del'], c)
                ok(mon, 'delete', act, o.detach if act == 'detach' else o.__delitem__, z)
                removed(i, z, 'detached' if act == 'detach' else 'removed')
            else:
                watch.react = react
                ok(mon, 'set', 'set', o.__setitem__, kk, obj[j])
                added(i, kk, j)
            mon.ev('listener-edit')
            added(x, 'reaction', y)
            if how == 'detach':
                removed(x, 'reaction', 'detached')
        compare(what)
        mon.state((cfg['fam'], tuple(len(x) for x in kids)))
    for i, o in enumerate(obj):
        got = [(k, v) for k, v in children(o)]
        mon.eq(sorted(k for k, v in got), sorted(kids[i]), 'contents', 'children of node {}'.format(i))


class Value(object):
    pass
