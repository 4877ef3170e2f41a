"""P09: UUID-aware nodes get fresh unique identities on creation and deep copy.

Every UUID ever seen in the process is recorded; copies of random trees (also
mixed with nodes not UUID aware, plain values, several levels) are compared
with the original.
"""
import copy
import uuid
from kit import *
from large import build, walk_pairs

ANCHORS = ['src/node/behaviors/common.py']
RULE = ('a case is a family of UUID aware node classes, a random tree and a sequence of copies of its nodes and of the '
        'copies; non-trivial: the copied tree contains UUID aware descendants')
QUICK, THOROUGH = 2500, 60000
MIN = {'copies': 5000, 'fresh': 15000, 'kept': 1000, 'refused-shallow': 2000, 'recursive': 3000, 'flat': 1500, 'own-factory': 5000}


@plumbing(UUIDAware)
class UNode(VOrderedNode):
    pass


@plumbing(UUIDAware)
class UBase(VBaseNode):
    pass


@plumbing(UUIDAware, Adopt, DefaultInit, Nodify, OdictStorage)
class UPlain(object):
    pass


@plumbing(Adopt, DefaultInit, UUIDAware, Nodify, DictStorage)
class UDict(object):
    pass


@plumbing(UUIDAware)
class UFlat(VOrderedNode):
    overwrite_recursiv_on_copy = False


class USub(UFlat):
    pass


@plumbing(UUIDAware)
class UInit(VOrderedNode):
    """Creates children itself."""

    def __init__(self, name=None, parent=None):
        super(UInit, self).__init__(name, parent)
        self['made'] = UNode()


@plumbing(UUIDAware, Nodespaces, Attributes)
class UAttr(VOrderedNode):
    pass


@plumbing(UUIDAware)
class UStr(VOrderedNode):

    def uuid_factory(self):
        return str(uuid.uuid4())


@plumbing(UUIDAware)
class UCache(CachedNode):
    pass


class Plain(VOrderedNode):
    pass


@plumbing(UUIDAware)
class ULife(LifecycleOrderedNode):
    pass


@plumbing(UUIDAware)
class URef(VNode):
    """UUIDs kept in the index of the tree."""


FAMILIES = [[URef], [UNode], [UNode, UBase, UFlat, USub, UAttr], [UPlain, UDict], [UNode, Plain, UFlat], [UFlat], [USub, Plain],
            [UInit, UNode], [UStr, UNode], [UCache, UBase], [UAttr, Plain], [ULife, UNode]]
W = {'copy': 6, 'module': 2, 'shallow': 3, 'new': 4, 'value': 2, 'toggle': 1, 'copysub': 4, 'again': 3}


def gen(rng, i, tier):
    return {'cfg': {'fam': i % len(FAMILIES), 'mood': rng.choice((None, None) + MOODS), 'style': style(rng)}, 'ops': gen_ops(rng, W, 4, 18, 4)}


def aware(n):
    return hasattr(type(n), 'overwrite_recursiv_on_copy')


def ids(node):
    """[(path, uuid)] of UUID aware nodes reached through nodes only."""
    out = []

    def one(n, path):
        if aware(n):
            out.append((path, n.uuid))
        kids = [(k, v) for k, v in children(n) if INode.providedBy(v)]
        if isinstance(n, (BaseNode, UDict)):
            kids.sort(key=lambda x: x[0])
        for k, v in kids:
            one(v, path + (k,))
    one(node, ())
    return out


def shape(n):
    return [(type(x), x.__name__, sorted(k for k, v in children(x))) for x in walk(n)]


def run(case, mon):
    fam = FAMILIES[case['cfg']['fam']]
    seen = {}
    trees = []

    def fresh(u, what):
        mon.ev('fresh')
        mon.true(u is not None and u != '', 'no-uuid', what, 'has no uuid')
        mon.true(u not in seen, 'uuid-reused', what, 'got uuid', u, 'already used by', seen.get(u))
        seen[u] = what

    def made(n):
        if aware(n) and not isinstance(n, URef):
            mon.ev('own-factory')
            mon.true(isinstance(n.uuid, str if isinstance(n, UStr) else uuid.UUID), 'factory', 'uuid', n.uuid, 'is not made by the factory of', n)

    def create(r):
        cls = pick(fam, r)
        n = moody(cls, case['cfg']['mood'] if r // 8 % 2 else None)()
        for p, u in ids(n):
            fresh(u, 'new {} {}'.format(cls.__name__, p))
        made(n)
        return n

    def everything():
        return [ids(t) for t in trees]

    def grow(root, a, b):
        nodes = walk(root)
        if len(nodes) < 14:
            parent = pick(nodes, a)
            parent[STYLES[case['cfg'].get('style')]('k%d' % (b % 3))] = create(b // 3)

    def copied(orig, new, what):
        mon.ev('copies')
        mon.true(new is not orig and type(new) is type(orig), 'copy', what, 'type of the copy')
        mon.eq(shape(new), shape(orig), 'copy-shape', what)
        a, b = dict(ids(orig)), dict(ids(new))
        if not aware(orig):
            return
        made(new)
        recursive = orig.overwrite_recursiv_on_copy
        mon.ev('recursive' if recursive else 'flat')
        for path in a:
            if path == () or recursive:
                fresh(b[path], '{} at {}'.format(what, path))
            else:
                mon.ev('kept')
                mon.eq(b[path], a[path], 'uuid-not-kept', what, 'descendant', path)

    root = create(0)
    trees.append(root)
    for op, a, b, c, d in case['ops']:
        t = pick(trees, a)
        mon.note(op, a, b, c, d)
        if op == 'new':
            for z in range(c % 4):
                grow(t, b + z, d + z)
            if isinstance(t, UFlat) and len(trees) < 6 and d % 4 == 0:
                trees.append(create(d))
        elif op == 'value':
            n = pick(walk(t), b)
            n['v%d' % (c % 2)] = fresh_value(d)
        elif op == 'toggle':
            n = pick(walk(t), b)
            if aware(n):
                n.overwrite_recursiv_on_copy = not n.overwrite_recursiv_on_copy
        elif op in ('copy', 'copysub', 'again'):
            n = t if op == 'copy' else pick(walk(t), b)
            if not aware(n):
                continue
            before = everything()
            new = ok(mon, 'deepcopy', 'deepcopy of {}'.format(type(n).__name__), n.deepcopy)
            mon.eq(everything(), before, 'original-changed', 'uuids of the original trees after a deep copy')
            copied(n, new, 'deep copy')
            if op == 'again' and len(trees) < 8:
                new2 = ok(mon, 'deepcopy', 'deepcopy of a copy', new.deepcopy)
                copied(new, new2, 'copy of a copy')
            if op == 'copy' and len(trees) < 8 and c % 2:
                trees.append(new)
        elif op == 'shallow':
            n = pick(walk(t), b)
            if not aware(n):
                continue
            before = everything()
            mon.ev('refused-shallow')
            raises(mon, RuntimeError, 'shallow', 'shallow copy of a UUID aware node', n.copy)
            mon.eq(everything(), before, 'original-changed', 'after refused shallow copy')
        elif op == 'module':
            pass
        if isinstance(t, URef):
            for n in walk(t):
                mon.is_(t.node(n.uuid), n, 'lookup', 'lookup of a node by its uuid')
        mon.state((len(trees), len(walk(t))))


def fixed(mon):

    def large(cls):
        root, at = build(cls, 150, 30)
        seen = set(n.uuid for n in at.values())
        mon.eq(len(seen), len(at), 'large', 'different uuids')
        kept = dict((p, n.uuid) for p, n in at.items())
        new = root.deepcopy()
        pairs = walk_pairs(new)
        mon.eq(len(pairs), len(at), 'large', 'nodes of the copy')
        fresh = set()
        for p, n in pairs:
            if cls.overwrite_recursiv_on_copy or not p:
                mon.true(isinstance(n.uuid, uuid.UUID) and n.uuid not in seen and n.uuid not in fresh,
                         'large', 'uuid of copied node', p)
            else:
                mon.eq(n.uuid, kept[p], 'large', 'uuid kept below')
            fresh.add(n.uuid)
        mon.eq(dict((p, n.uuid) for p, n in at.items()), kept, 'large', 'uuids of the original')

    for cls in (UNode, UPlain, UDict, UFlat):
        yield 'large-' + cls.__name__, lambda: large(cls)
