"""P21: fallback lookup finds what the documented search order defines.

Lockstep monitor: a reference keeps the tree as nested dictionaries and
searches by the documented order; lookups of present and missing keys all over
the tree must agree, also after edits, failing lookups and lookups made while
another one is in progress.
"""
from kit import *

ANCHORS = ['src/node/behaviors/fallback.py']
RULE = ('a case is a tree (children or attributes looked up) with fallback keys at several levels and 15-50 lookups and '
        'edits; non-trivial: all lookups agreed with the reference search')
QUICK, THOROUGH = 4500, 100000
MIN = {'present': 20000, 'fallback': 8000, 'second': 1500, 'inside-fallback': 800, 'notfound': 20000, 'edits': 10000,
       'attributes': 3000, 'faults': 1000, 'nested': 800}
ASSUMPTIONS = ['fallback keys are non-empty strings naming nodes', 'trees hold nodes, plain values only as attributes']


class Boom(Exception):
    pass


FAULT = {'on': None, 'hook': None}


class Probe(Behavior):
    """Fails, or looks something up, when the storage is read."""

    @plumb
    def __getitem__(_next, self, key):
        if FAULT['on'] is not None and FAULT['on'] == key:
            raise Boom()
        hook, FAULT['hook'] = FAULT['hook'], None
        if hook is not None:
            hook()
        return _next(self, key)


@plumbing(Fallback, Probe)
class FbNode(VOrderedNode):
    pass


@plumbing(Fallback, Probe)
class FbDict(VBaseNode):
    pass


@plumbing(Fallback, Probe, Adopt, Order, DefaultInit, Nodify, OdictStorage)
class FbOrder(object):
    pass


@plumbing(Fallback, Probe)
class FbNodeNode(VNode):
    pass


@plumbing(Fallback, Probe)
class FbClassKey(VOrderedNode):
    fallback_key = 'a'


@plumbing(Nodespaces, Fallback, Adopt, DefaultInit, Nodify, OdictStorage)
class FbAttributes(object):
    pass


@plumbing(NodeChildValidate, Nodespaces, Adopt, Attributes, DefaultInit, Nodify, OdictStorage)
class AttrsTree(object):
    """As documented: only the attributes fall back."""
    attributes_factory = FbAttributes


@plumbing(NodeChildValidate, Nodespaces, Fallback, Probe, Adopt, Attributes, DefaultInit, Nodify, OdictStorage)
class BothTree(object):
    """Children and attributes fall back."""
    attributes_factory = FbAttributes


FAMILIES = {
    'children': [FbNode], 'dict': [FbDict], 'order': [FbOrder], 'node': [FbNodeNode], 'classkey': [FbClassKey],
    'mixed': [FbNode, FbNode, VOrderedNode], 'mixed2': [FbNode, FbDict, FbClassKey], 'attrs': [AttrsTree],
    'both': [BothTree],
}
NAMES = sorted(FAMILIES)
KEYS = ['a', 'b', 'c']
W = {'lookup': 30, 'get': 8, 'all': 2, 'add': 8, 'del': 3, 'key': 5, 'attr': 6, 'fault': 3, 'nested': 3, 'chain': 4}


def gen(rng, i, tier):
    return {'cfg': {'fam': NAMES[i % len(NAMES)], 'seed': rng.randrange(R), 'size': rng.randint(6, 24),
                    'mood': rng.choice((None, None) + MOODS), 'style': style(rng), 'numbers': rng.random() < .15, 'bury': rng.randrange(R)},
            'ops': gen_ops(rng, W, 15, 50, 5)}


class Ref(object):
    """A node of the reference tree."""

    def __init__(self, cls, parent, name):
        self.cls, self.parent, self.name = cls, parent, name
        self.kids = {}
        self.key = 'a' if cls is FbClassKey else None
        self.node = None

    def path(self):
        out = []
        while self.parent is not None:
            out.append(self.name)
            self = self.parent
        return out[::-1]

    def all(self):
        out = [self]
        for k in sorted(self.kids):
            if isinstance(self.kids[k], Ref):
                out += self.kids[k].all()
        return out


def search(mon, start, key):
    """(found, value): what the documented order finds for a missing key."""
    full = start.path() + [key]
    done = []
    stack = start
    tried = 0
    depth = 0
    while stack.parent is not None:
        parent = stack.parent
        if parent.key and not any(stack is x for x in done):
            done.append(stack)
            if parent.key in parent.kids:
                tried += 1
                cur = parent.kids[parent.key]
                at = len(cur.path())
                for n, name in enumerate(full[at:]):
                    if name not in cur.kids:
                        break
                    cur = cur.kids[name]
                else:
                    mon.ev('fallback')
                    mon.ev('second', tried > 1)
                    mon.ev('inside-fallback', depth > 0)
                    return True, cur
                if any(x is not stack and x.parent is not None and x.parent.key for x in up(cur, parent)):
                    depth += 1
                stack = cur
                continue
        stack = parent
    mon.ev('notfound')
    return False, None


def up(ref, stop):
    out = []
    while ref is not stop and ref is not None:
        out.append(ref)
        ref = ref.parent
    return out


def run(case, mon):
    try:
        play(case, mon)
    finally:
        FAULT.update(on=None, hook=None)


def play(case, mon):
    cfg = case['cfg']
    fam = FAMILIES[cfg['fam']]
    attributed = cfg['fam'] in ('attrs', 'both')
    import random
    rng = random.Random(cfg['seed'])
    root = Ref(fam[0], None, None)
    root.node = fam[0]()
    KS = styled(cfg.get('style'), KEYS)
    if cfg.get('numbers') and cfg['fam'] not in ('attrs', 'both', 'node'):
        KS = [1, 7, -3]
        mon.ev('number-keys')
    if bury(root.node, cfg.get('bury', 0), styled(cfg.get('style'), KEYS)):
        mon.ev('inner')

    def has_fallback(ref):
        return ref.cls is not VOrderedNode and ref.cls is not AttrsTree

    def add(ref, k, r):
        cls = pick(fam, r)
        kid = Ref(cls, ref, k)
        kid.node = moody(cls, cfg['mood'] if r // 8 % 2 else None)()
        ref.node[k] = kid.node
        ref.kids[k] = kid
        if attributed and r % 3:
            attrs(kid)
        return kid

    def attrs(ref):
        if '__attrs__' not in ref.kids:
            a = Ref(FbAttributes, ref, '__attrs__')
            a.node = ref.node.attrs
            ref.kids['__attrs__'] = a
        return ref.kids['__attrs__']

    def setkey(ref, k):
        ref.key = k
        ref.node.fallback_key = k

    for _ in range(cfg['size']):
        ref = rng.choice([x for x in root.all() if x.name != '__attrs__' and len(x.path()) < 5])
        k = rng.choice(KS)
        if k not in ref.kids:
            add(ref, k, rng.randrange(R))
        if rng.random() < .6:
            setkey(ref, rng.choice(KS))
        if attributed and rng.random() < .7:
            a = attrs(ref)
            for k in rng.sample(KS, 2):
                v = object()
                a.node[k] = a.kids[k] = v

    def actual(x):
        return x.node if isinstance(x, Ref) else x

    def missing(ref, k):
        # reserved keys are nodespaces
        return search(mon, ref, k) if has_fallback(ref) and not (isinstance(k, str) and k.startswith('__')) else (False, None)

    def lookup(ref, k, how):
        if ref.cls is FbAttributes:
            mon.ev('attributes')
        if k in ref.kids:
            mon.ev('present')
            want = True, ref.kids[k]
        else:
            want = missing(ref, k)
        if how == 'get':
            marker = object()
            got = ok(mon, 'lookup', 'get {} of {}'.format(k, ref.path()), ref.node.get, k, marker)
            if want[0]:
                mon.is_(got, actual(want[1]), 'found', 'key', k, 'of', ref.path())
            else:
                mon.is_(got, marker, 'found', 'key', k, 'of', ref.path())
        else:
            state, got = outcome(ref.node.__getitem__, k)
            if want[0]:
                mon.true(state == 'ok', 'found', 'key', k, 'of', ref.path(), 'raised', got)
                mon.is_(got, actual(want[1]), 'found', 'key', k, 'of', ref.path())
            else:
                mon.true(state == 'exc', 'found', 'key', k, 'of', ref.path(), 'gave', got)
                mon.true(type(got) is KeyError and got.args == (k,), 'error', 'for key', k, 'is', got)

    def shape(ref):
        n = ref.node
        out = [id(n), n.__name__, id(n.__parent__) if n.__parent__ is not None else None]
        for k in take(n):
            x = ref.kids.get(k)
            out.append((k, shape(x) if isinstance(x, Ref) else 'value'))
        return tuple(out)

    def same_keys():
        for ref in root.all():
            mon.eq(sorted(take(ref.node)), sorted(k for k in ref.kids if k != '__attrs__'), 'contents', 'keys of',
                   ref.path())
            if attributed and ref.cls is not FbAttributes:
                mon.eq('__attrs__' in ref.node.nodespaces, '__attrs__' in ref.kids, 'contents', 'attributes created by',
                       'lookup at', ref.path())
    ALL = KS + ['nokey', '__attrs__']
    for op, a, b, c, d, e in case['ops']:
        refs = root.all()
        ref = pick(refs, a)
        k = pick(ALL if attributed and ref.cls is not FbAttributes else ALL[:4], b)
        mon.note(op, ref.path(), k)
        if op == 'lookup':
            lookup(ref, k, 'item')
        elif op == 'get':
            lookup(ref, k, 'get')
        elif op == 'chain':
            # from the root, step by step
            node, at = root.node, root
            for name in [pick(KS, x) for x in (b, c, d, e)]:
                if name in at.kids:
                    want = True, at.kids[name]
                else:
                    want = missing(at, name)
                got = node.get(name)
                mon.is_(got, actual(want[1]) if want[0] else None, 'found', 'key', name, 'of', at.path())
                if not want[0] or not isinstance(want[1], Ref):
                    break
                node, at = got, want[1]
        elif op == 'all':
            before = shape(root)
            for x in refs:
                for name in KS + ['nokey']:
                    lookup(x, name, 'get' if c % 2 else 'item')
            mon.true(shape(root) == before, 'modified', 'a lookup changed the tree')
        elif op == 'add':
            mon.ev('edits')
            if ref.cls is FbAttributes or len(ref.path()) > 5 or len(refs) > 24:
                continue
            k = pick(KS, b)
            if k not in ref.kids:
                add(ref, k, c)
        elif op == 'del':
            mon.ev('edits')
            ks = sorted(x for x in ref.kids if x != '__attrs__')
            if ks:
                k = pick(ks, b)
                del ref.node[k]
                gone = ref.kids.pop(k)
                if isinstance(gone, Ref):
                    gone.parent = None
        elif op == 'key':
            mon.ev('edits')
            if ref.cls is FbAttributes:
                continue
            if c % 4 == 0 and 'fallback_key' in ref.node.__dict__:
                del ref.node.fallback_key
                ref.key = 'a' if ref.cls is FbClassKey else None
            elif c % 7 == 1:
                setkey(ref, 'nokey')
            else:
                setkey(ref, pick(KS, b))
        elif op == 'attr':
            if not attributed or ref.cls is FbAttributes:
                continue
            mon.ev('edits')
            at = attrs(ref)
            k = pick(KS, b)
            v = None if c % 5 == 0 else fresh_value(d) if c % 5 == 1 else object()
            at.node[k] = at.kids[k] = v
        elif op == 'fault':
            # the search is aborted by an error, later lookups work as before
            if cfg['fam'] == 'attrs':
                continue
            mon.ev('faults')
            FAULT['on'] = pick(KS, c)
            state, val = outcome(ref.node.__getitem__, k)
            if state == 'exc' and not isinstance(val, (Boom, KeyError)):
                raise Violation('error', repr(val))
            FAULT['on'] = None
            lookup(ref, k, 'item')
        elif op == 'nested':
            # another lookup is made while one is in progress
            if cfg['fam'] == 'attrs':
                continue
            mon.ev('nested')
            other = pick(refs, c)
            name = pick(KS + ['nokey'], d)
            FAULT['hook'] = lambda: outcome(other.node.__getitem__, name)
            outcome(ref.node.__getitem__, k)
            FAULT['hook'] = None
            lookup(ref, k, 'item')
            lookup(other, name, 'item')
        mon.state((cfg['fam'], len(refs), op, len(ref.path())))
        if e % 8 == 0:
            same_keys()
    same_keys()
    for x in root.all():
        for name in KS + ['nokey']:
            lookup(x, name, 'item')


def fixed(mon):

    def deep(cls, depth):
        # fallback nodes many levels above and paths many levels below
        root = cls()
        root.fallback_key = 'de'
        for lang in ('de', 'en'):
            n = root[lang] = cls()
            for i in range(depth):
                n['d%d' % i] = cls()
                n = n['d%d' % i]
                n['only-' + lang] = cls()
                n['both'] = cls()
        a, b = root['en'], root['de']
        for i in range(depth):
            a, b = a['d%d' % i], b['d%d' % i]
            mon.is_(a['only-de'], b['only-de'], 'deep', 'found in the fallback node')
            mon.true(a['both'] is not b['both'], 'deep', 'found in place')
            mon.is_(a['both'].parent, a, 'deep', 'found in place')
            raises(mon, KeyError, 'deep', 'nowhere', a.__getitem__, 'nowhere')
            mon.is_(a.get('only-de'), b['only-de'], 'deep', 'found in the fallback node')
            raises(mon, KeyError, 'deep', 'nothing falls back on', b.__getitem__, 'only-en')
        mon.ev('large')

    for cls in (FbNode, FbDict, FbNodeNode):
        yield 'deep-' + cls.__name__, lambda: deep(cls, 40)
