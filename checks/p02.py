"""P02: a child always knows its name, parent, path and root.

Lockstep monitor over several trees edited at random; after every edit the
location of every attached node is compared with the reference structure.
"""
from kit import *
from large import build, located
from forest import Forest
from node.utils import LocationIterator
from node.utils import node_by_path
from zope.interface import Interface

ANCHORS = ['src/node/behaviors/common.py', 'src/node/behaviors/nodify.py', 'src/node/utils.py']
RULE = ('a case is a family of node classes, a key alphabet and 15-60 random tree edits (create, attach by any write '
        'route, replace, delete, pop, detach, move); non-trivial: the edits ran in agreement with the reference')
QUICK, THOROUGH = 1500, 30000
MIN = {'mood.falsy': 300, 'mood.equal': 300, 'mood.both': 300, 'op.attach': 3000, 'path-checks': 20000, 'op.insert': 200, 'factory-child': 100, 'fixed-child': 100, 'computed-name': 500}
ASSUMPTIONS = ['the location reported by a node after it was removed from its tree is not specified',
               'no node is attached below itself or in two places']


class LazyLeaf(BaseNode):
    pass


@plumbing(ChildFactory)
class LazyNode(OrderedNode):
    factories = odict([('lazy1', LazyLeaf), ('lazy2', OrderedNode)])


class Computed(OrderedNode):

    @property
    def name(self):
        return 'computed'


@plumbing(FixedChildren, DefaultInit, Nodify)
class FixedNode(object):
    fixed_children_factories = (('fix1', OrderedNode), ('fix2', LazyNode))


FAMILIES = {
    'mixed': [BaseNode, OrderedNode, AdoptOdictNode, AdoptDictNode, CustomStorageNode, CachedNode, UnaliasedNode,
              UnicodeNode, LifecycleOrderedNode, EventsNode, OrderNode],
    'base': [BaseNode],
    'ordered': [OrderNode],
    'node': [Node],
    'attributed': [AttributedNode, Node, LifecycleNode],
    'ref': [RefNode, OrderRefNode],
    'plain-ordered': [OrderedNode],
    'dict': [AdoptDictNode],
}
W = {'new': 8, 'attach': 14, 'delete': 3, 'detach': 3, 'move': 5, 'replace': 3, 'insert': 5, 'multi': 3, 'clear': 1,
     'deep': 2, 'readonly': 1, 'lazy': 2, 'attrs': 1, 'computed': 1}


def gen(rng, i, tier):
    return {'cfg': {'fam': sorted(FAMILIES)[i % len(FAMILIES)], 'keys': rng.choice([3, 6, 21]),
                    'any': rng.random() < .3, 'mood': rng.choice((None, None) + MOODS), 'rootname': rng.choice([None, 'root', '', 'ä']),
                    'style': style(rng), 'big': rng.random() < .03},
            'ops': gen_ops(rng, W, 15, 60, 5)}


def run(case, mon):
    cfg = case['cfg']
    fam = FAMILIES[cfg['fam']]
    anykey = cfg['any'] and cfg['fam'] in ('mixed', 'base', 'ref', 'plain-ordered', 'dict')
    f = Forest(mon, fam, None)
    f.setup(cfg)

    def spell(k):
        return f.spell(k) if isinstance(k, str) else k

    def key(r):
        k = spell(key_for(anykey, r, 21 if f.big else cfg['keys']))
        return 'k' if k is None or k is True else k

    def check():
        for i, o in enumerate(f.obj):
            if f.up[i] is None:
                continue
            p, k = f.up[i]
            mon.true(o.name == k and o.__name__ == k and type(o.name) is type(k), 'name',
                     'node attached as', k, 'reports name', o.name)
            mon.is_(o.parent, f.obj[p], 'parent', 'parent of', k)
            mon.is_(o.__parent__, f.obj[p], 'parent', '__parent__ of', k)
            mon.is_(f.obj[p][k], o, 'item', 'item', k)
        for i, o in enumerate(f.obj):
            root = f.root_of(i)
            if not f.clean[root]:
                continue
            path = f.path(i)
            mon.ev('path-checks')
            mon.eq(o.path, [f.obj[root].name] + path, 'path', 'path')
            mon.is_(o.root, f.obj[root], 'root', 'root of', path)
            mon.is_(node_by_path(f.obj[root], path), o, 'node_by_path', 'node_by_path', path)
            mon.is_(node_by_path(f.obj[root], tuple(o.path[1:])), o, 'node_by_path', 'node_by_path', path)
            if all(isinstance(k, str) and k and '/' not in k for k in path):
                text = '/'.join(path)
                for t in (text, '/' + text, text + '/', '//' + text + '//'):
                    mon.is_(node_by_path(f.obj[root], t), o, 'node_by_path', 'node_by_path', t)
            chain = take(LocationIterator(o))
            exp, x = [], i
            while x is not None:
                exp.append(f.obj[x])
                x = f.up[x][0] if f.up[x] else None
            mon.true(same_seq(chain, exp), 'location-iterator', 'ancestors', chain, 'expected', exp)
            mon.state(('depth', len(path), type(o).__name__))

    def attachable(i, j):
        return f.up[j] is None and i not in f.subtree(j)

    def attach(i, k, j, route):
        """attach j to i under new or existing key k"""
        o, c = f.obj[i], f.obj[j]
        at = f.kid(i, k)
        what = 'attach by route {} as {!r}'.format(route, k)
        if route == 1 and at is None:
            r = ok(mon, 'attach', what, o.setdefault, k, c)
            mon.is_(r, c, 'setdefault', what)
        elif route == 2:
            ok(mon, 'attach', what, o.update, {k: c})
        elif route == 3:
            ok(mon, 'attach', what, o.update, [(k, c)])
        elif route == 4 and isinstance(k, str) and k.isidentifier():
            ok(mon, 'attach', what, lambda: o.update(**{k: c}))
        elif route == 5 and not isinstance(o, (CustomStorageNode,)) and hasattr(o, 'as_attribute_access'):
            ok(mon, 'attach', what, o.as_attribute_access().__setitem__, k, c)
        elif route == 6 and at is not None:
            r = ok(mon, 'attach', what, o.setdefault, k, c)
            mon.is_(r, f.obj[at], 'setdefault', what + ' on an existing key')
            return
        else:
            ok(mon, 'attach', what, o.__setitem__, k, c)
        f.m_put(i, k, j)

    f.new(0, cfg['rootname'])
    f.new(1)
    for op, a, b, c, d, e in case['ops']:
        mon.ev('op.' + op)
        n = len(f.obj)
        i, j, k = a % n, b % n, key(c)
        mon.note(op, i, j, k)
        if op == 'new':
            f.new(a, pick([None, 'n', 'root', 'x y'], b))
            continue
        elif op in ('attach', 'replace'):
            if op == 'attach':
                x = f.new(e) if e % 3 == 0 else None
                j = j if x is None else x
            elif f.kids[i]:
                k = pick(f.kids[i], c)[0]
            if not attachable(i, j):
                continue
            attach(i, k, j, d % 8)
        elif op == 'delete' and f.kids[i]:
            k = pick(f.kids[i], c)[0]
            if d % 3 == 0:
                ok(mon, 'delete', 'del', f.obj[i].__delitem__, k)
            elif d % 3 == 1:
                ok(mon, 'delete', 'pop', f.obj[i].pop, k)
            else:
                k = ok(mon, 'delete', 'popitem', f.obj[i].popitem)[0]
            f.m_del(i, k)
        elif op == 'detach' and f.kids[i]:
            k = pick(f.kids[i], c)[0]
            r = ok(mon, 'detach', 'detach', f.obj[i].detach, k)
            mon.is_(r, f.obj[f.kid(i, k)], 'detach', 'detached', k)
            f.m_del(i, k)
        elif op == 'move' and f.kids[i]:
            k = pick(f.kids[i], c)[0]
            x = f.kid(i, k)
            if j in f.subtree(x):
                continue
            ok(mon, 'detach', 'detach', f.obj[i].detach, k)
            f.m_del(i, k)
            attach(j, key(e), x, d % 8)
        elif op == 'insert' and hasattr(f.obj[i], 'insertfirst'):
            if not attachable(i, j):
                x = f.new(e)
                if x is None:
                    continue
                j = x
            if f.kid(i, k) is not None:
                continue
            f.obj[j].__name__ = k
            ref = pick(f.kids[i], e) if f.kids[i] else None
            o, w = f.obj[i], d % 4 if ref else d % 2
            pos = [k2 for k2, _ in f.kids[i]].index(ref[0]) if ref else 0
            if w == 0:
                ok(mon, 'insert', 'insertfirst', o.insertfirst, f.obj[j])
                pos = 0
            elif w == 1:
                ok(mon, 'insert', 'insertlast', o.insertlast, f.obj[j])
                pos = len(f.kids[i])
            elif w == 2:
                ok(mon, 'insert', 'insertbefore', o.insertbefore, f.obj[j], f.obj[ref[1]])
            else:
                ok(mon, 'insert', 'insertafter', o.insertafter, f.obj[j], f.obj[ref[1]])
                pos += 1
            f.m_put(i, k, j, pos)
        elif op == 'multi':
            batch = []
            for y in range(2 + d % 3):
                x, kk = f.new(e + y), key(c + y * 3 + 1)
                if x is not None and all(kk != z for z, _ in batch):
                    batch.append((kk, x))
            if d % 2:
                ok(mon, 'attach', 'update', f.obj[i].update, [(z, f.obj[x]) for z, x in batch])
            else:
                ok(mon, 'attach', 'update', f.obj[i].update, odict([(z, f.obj[x]) for z, x in batch]))
            for z, x in batch:
                f.m_put(i, z, x)
        elif op == 'clear':
            ok(mon, 'delete', 'clear', f.obj[i].clear)
            for z, x in list(f.kids[i]):
                f.m_del(i, z)
        elif op == 'deep':
            x = i
            for y in range(3 + d % 4):
                z = f.new(e + y)
                if z is None:
                    break
                attach(x, key(c + y), z, (d + y) % 4)
                x = z
        elif op == 'readonly':
            o = f.obj[i]
            for attr in ('name', 'parent', 'path', 'root'):
                raises(mon, AttributeError, 'read-only', 'setting ' + attr, setattr, o, attr, 'zzz')
        elif op == 'lazy':
            top = pick([LazyNode, FixedNode], d)(name=pick([None, 'top'], e))
            for depth in range(1 + e % 2):
                for kk in take(top):
                    for route in range(1 + d % 3):
                        ch = top[kk] if route % 2 == 0 else top.get(kk)
                        mon.ev('factory-child' if isinstance(top, LazyNode) else 'fixed-child')
                        mon.true(ch.name == kk and ch.parent is top, 'lazy-location', 'lazy child', kk, 'is named',
                                 ch.name, 'below', ch.parent)
                        mon.eq(ch.path, top.path + [kk], 'path', 'path of a lazy child')
                        mon.is_(ch.root, top.root, 'root', 'root of a lazy child')
                        mon.is_(node_by_path(top, [kk]), ch, 'node_by_path', 'lazy child')
                nxt = [top[x] for x in take(top) if isinstance(top[x], LazyNode)]
                if not nxt:
                    break
                top = nxt[0]
        elif op == 'computed':
            # nodes may tell another name than the one they are stored under
            top = Computed(name=pick([None, 'top'], e))
            at, exp = top, [top.name]
            for z in range(1 + d % 4):
                kk = key(c + z)
                nxt = pick([Computed, OrderedNode], (b >> z))()
                at[kk] = nxt
                at = nxt
                mon.true(nxt.__name__ == kk, 'name', 'stored name')
                exp.append('computed' if isinstance(nxt, Computed) else kk)
                mon.ev('computed-name')
                mon.eq(nxt.path, exp, 'path', 'path of names')
                mon.is_(nxt.root, top, 'root', 'root')
            continue
        elif op == 'attrs' and isinstance(f.obj[i], ATTRIBUTED):
            at = f.obj[i].attrs
            sub = BaseNode()
            at['sub'] = sub
            mon.true(at.name == '__attrs__' and at.parent is f.obj[i], 'attrs-location', 'attrs located', at.name)
            mon.true(sub.name == 'sub' and sub.parent is at, 'attrs-location', 'node in attrs located', sub.name)
            continue
        check()
    f.check_structure()


def fixed(mon):

    def large(cls):
        root, at = build(cls, 120, 300)
        located(mon, at, 'large', ordered=not isinstance(root, BaseNode))
        mid = root['w60']
        gone = root.detach('w60')
        mon.is_(gone, mid, 'large', 'detached')
        del at[('w60',)]
        at = dict((p, n) for p, n in at.items() if p[:1] != ('w60',))
        at[('d0', 'd1', 'again')] = mid
        root['d0']['d1']['again'] = mid
        for i in range(120):
            at[('d0', 'd1', 'again', 'v%d' % i)] = mid['v%d' % i]
        located(mon, at, 'large', ordered=False)

    for cls in (BaseNode, OrderedNode, Node, AttributedNode, RefNode):
        yield 'large-' + cls.__name__, lambda: large(cls)
