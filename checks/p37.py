"""P37: path lookup is successive item access.

The same path, in several notations, is looked up from random nodes of random
trees; the result is compared with item access done step by step, and the
nodes beside the path must neither be read, nor created, nor changed.
"""
from kit import *
from node.behaviors.alias import PrefixAliaser
from node.utils import LocationIterator, node_by_path

ANCHORS = ['src/node/utils.py', 'src/node/behaviors/nodify.py']
RULE = ('a case is a random tree of several node classes, dictionaries and values, and 10-40 paths of 0-12 keys in one of the notations '
        'list, tuple, text, text with slashes around; non-trivial: the path led to the object of step by step access, or to its error')
QUICK, THOROUGH = 5000, 200000
MIN = {'found': 12000, 'missing': 10000, 'broken': 700, 'empty-path': 4000, 'lazy': 3000, 'to-value': 3000, 'notation.list': 4000,
       'notation.tuple': 4000, 'notation.text': 4000, 'notation.slashes': 4000, 'falsy-on-path': 3000, 'from-inner': 8000,
       'beside-untouched': 8000, 'locations': 20000, 'located-others': 3000, 'deep': 250, 'alias': 2000, 'fallback': 300}
ASSUMPTIONS = ['keys on textual paths contain no slash, the first and the last one are not empty', 'trees are not edited while a path is looked up']

TOUCHED = []


@plumbing(ChildFactory)
class LazyNode(VOrderedNode):
    pass


def made():
    TOUCHED.append('made')
    return LazyNode()


LazyNode.factories = odict([('l0', made), ('l1', made), ('l2', made)])


class Backed(VOrderedNode):
    """Tells what is read from it."""

    def __getitem__(self, key):
        TOUCHED.append((id(self), 'item', key))
        return VOrderedNode.__getitem__(self, key)

    def __iter__(self):
        TOUCHED.append((id(self), 'iter'))
        return VOrderedNode.__iter__(self)


@plumbing(Alias)
class Aliased(VOrderedNode):
    aliaser = PrefixAliaser('x-')


class Falling(FallbackNode):
    fallback_key = 'a'
    allow_non_node_childs = False


class Dull(VOrderedNode):
    def __bool__(self):
        return False


class Located(object):
    """No node, but has a parent."""

    def __init__(self, parent, falsy):
        self.__parent__ = parent
        self.falsy = falsy

    def __bool__(self):
        return not self.falsy


class Unlocated(object):
    pass


CLASSES = [VOrderedNode, VBaseNode, VNode, Backed, CachedNode, Dull, LazyNode, Aliased, dict, Falling]
KEYS = ['a', 'b', 'c', 'name', 'ä b', '.', '..', ' ', '0', '__x', 'storage']
OTHER = [0, 1, None, ('t',), True, '', 'a/b', '/', 2.5]


def gen(rng, i, tier):
    return {'big': rng.random() < .05, 'style': style(rng), 'any': rng.random() < .4, 'mood': rng.random() < .2,
            'nodes': [[rng.randrange(R) for _ in range(3)] for _ in range(rng.choice([1, 4, 8, 14, 20]))],
            'ops': gen_ops(rng, {'find': 6, 'missing': 3, 'through': 1, 'empty': 2, 'lazy': 2, 'locations': 2, 'others': 1,
                                 'twice': 1}, 10, 40, 5)}


def stepwise(node, path):
    for key in path:
        node = node[key]
    return node


def run(case, mon):
    texts = styled(case['style'], KEYS)
    # a slash would be read as separator, those around are cut off
    texts = [t.replace('/', '-') if '/' in t else t for t in texts]
    keys = texts + (OTHER if case['any'] else [])
    root = pick([VOrderedNode, VNode, Backed, Dull, LazyNode, VBaseNode], len(case['nodes']))()
    places = [(root, [])]
    for n, (a, b, c) in enumerate(case['nodes']):
        up, path = places[-1] if case['big'] or a % 3 == 0 else pick(places, b)
        cls = pick(CLASSES, c)
        if isinstance(up, (VNode, Falling)):
            cls = VNode if isinstance(up, VNode) else Falling
        if isinstance(up, dict) and a % 2:
            cls = dict
        k = pick(keys, a // 3)
        if isinstance(up, VNode):
            k = pick(texts, a // 3)
        if isinstance(up, Aliased):
            k = 'x-' + pick(texts, a // 3)
        if isinstance(up, LazyNode):
            k = pick(list(LazyNode.factories), a // 3)
        if isinstance(up, dict):
            if k in up:
                continue
        elif any(x == k for x in take(up)) and not isinstance(up, LazyNode):
            continue
        if isinstance(up, LazyNode) and any(p[:-1] == path and p[-1] == k for _, p in places if p):
            continue
        child = cls()
        if a % 9 == 0 and not isinstance(up, (VNode, Falling)):
            child = pick([0, 'text', None, 1.5, (), Unlocated()], c)
        up[k] = child
        if isinstance(child, (dict,)) or INode.providedBy(child):
            places.append((child, path + [k]))
        else:
            mon.ev('values')
    inner = [x for x, p in places if INode.providedBy(x)]

    def downwards(node, r, n):
        """A path which exists."""
        path = []
        for _ in range(n):
            if isinstance(node, LazyNode):
                have = [k for k in take(node)]
            elif isinstance(node, dict) or INode.providedBy(node):
                have = take(node)
            else:
                break
            if not have:
                break
            k = pick(have, r)
            r = r // 3 + 7
            path.append(k)
            if isinstance(node, LazyNode) and n > 3 and len(path) > 6:
                break
            node = node[k]
        return path

    def notations(path):
        out = [('list', list(path)), ('tuple', tuple(path))]
        # empty keys count between others only
        if all(isinstance(k, str) and '/' not in k for k in path) and not (path and '' in (path[0], path[-1])):
            mon.ev('empty-key', '' in path)
            joined = '/'.join(path)
            out += [('text', joined), ('slashes', '/' + joined), ('slashes', joined + '/'), ('slashes', '/' + joined + '/'),
                    ('text', Text(joined))]
        return out

    def image():
        """Nothing is created by this."""
        out = []
        for x, p in places:
            if isinstance(x, LazyNode):
                out.append((id(x), sorted(map(str, x.storage)), [id(x.storage[k]) for k in sorted(map(str, x.storage))]))
            elif isinstance(x, dict):
                out.append((id(x), [(k, id(v)) for k, v in x.items()]))
            else:
                out.append((id(x), [(k, id(v)) for k, v in children(x)]))
            if INode.providedBy(x):
                out.append((x.__name__, id(x.__parent__)))
        return out

    for op, a, b, c, d, e in case['ops']:
        start, at = pick(places, a)
        n = (b % 5) if not case['big'] else b % 30
        mon.ev('op.' + op)
        if op in ('find', 'missing', 'through', 'empty', 'twice'):
            path = downwards(start, c, n)
            if op == 'empty':
                path = []
            if op == 'missing':
                end = stepwise(start, path)
                if isinstance(end, (dict,)) or INode.providedBy(end):
                    path = path + [pick(['nothing', 'x-nothing', 'no', ''], d)] + path[:e % 3]
            if op == 'through':
                path = path + ['more', 'still'][:d % 2 + 1]
            if len(path) > 8:
                mon.ev('deep')
            before = image()
            state, want = outcome(stepwise, start, path)
            if not any(isinstance(x, LazyNode) for x, p in places):
                mon.true(image() == before, 'harness', 'step by step access changed something')
            before = image()
            for kind, spelled in notations(path):
                mon.ev('notation.' + kind)
                mon.note(op, kind, spelled)
                given = list(spelled) if kind in ('list', 'tuple') else spelled
                del TOUCHED[:]
                got_state, got = outcome(node_by_path, start, spelled)
                touched = list(TOUCHED)
                if state == 'ok':
                    mon.true(got_state == 'ok', 'found', 'path', spelled, 'gives', got, 'instead of', want)
                    mon.is_(got, want, 'found', 'path {!r}'.format(spelled))
                    mon.ev('found')
                    if at:
                        mon.ev('from-inner')
                    if not (INode.providedBy(want) or isinstance(want, dict)):
                        mon.ev('to-value')
                    if not path:
                        mon.ev('empty-path')
                        mon.is_(got, start, 'found', 'empty path')
                else:
                    mon.true(got_state == 'exc', 'missing', 'path', spelled, 'gives', got, 'instead of', want)
                    mon.true(type(got) is type(want), 'missing', 'path', spelled, 'raises', got, 'instead of', want)
                    mon.eq(str(got), str(want), 'missing', 'error of path', spelled)
                    mon.ev('missing' if isinstance(want, KeyError) else 'broken')
                mon.true(list(spelled) == given if kind in ('list', 'tuple') else True, 'path-changed', 'the given path is now', spelled)
                # beside the path
                on = set()
                x = start
                for k in path:
                    on.add(id(x))
                    if isinstance(x, Dull):
                        mon.ev('falsy-on-path')
                    if isinstance(x, Aliased):
                        mon.ev('alias')
                    if isinstance(x, Falling):
                        mon.ev('fallback')
                    s, x = outcome(lambda: x[k])
                    if s == 'exc':
                        break
                if not any(isinstance(x, Falling) for x, p in places):
                    mon.ev('beside-untouched')
                    for t in touched:
                        mon.true(t != 'made' and t[0] in on, 'beside', 'path', spelled, 'touched', t)
                mon.true(image() == before, 'beside', 'looking up', spelled, 'changed the tree')
                mon.state((kind, len(path), type(start).__name__, type(want).__name__, state))
        elif op == 'lazy':
            # exactly the children on the path are made
            top = LazyNode()
            path = [pick(['l0', 'l1', 'l2'], r) for r in (b, c, d)][:e % 4]
            if e % 7 == 0:
                path.append('l9')
            kind, spelled = pick(notations(path), e)
            del TOUCHED[:]
            state, got = outcome(node_by_path, top, spelled)
            mon.ev('lazy')
            mon.eq(len(TOUCHED), len([k for k in path if k != 'l9']), 'lazy', 'children made by', spelled)
            x = top
            for k in path:
                if k == 'l9':
                    break
                mon.eq(list(x.storage), [k], 'lazy', 'children made by', spelled)
                x = x[k]
            if 'l9' in path:
                mon.true(state == 'exc' and isinstance(got, KeyError), 'missing', spelled, 'gives', got)
            else:
                mon.is_(got, x, 'lazy', 'child made by', spelled)
        elif op == 'locations':
            node = pick(inner, b)
            got = take(LocationIterator(node))
            want = [node]
            while getattr(want[-1], '__parent__', None) is not None:
                want.append(want[-1].__parent__)
            mon.ev('locations', len(want))
            mon.true(len(got) == len(want) and all(x is y for x, y in zip(got, want)), 'locations', got, 'instead of', want)
            it = iter(LocationIterator(node))
            for x in want[:c % 3 + 1]:
                mon.is_(next(it), x, 'locations', 'next location')
            if not any(isinstance(x, (dict, Aliased)) for x, p in places):
                # back down from the root
                mon.is_(node.root, want[-1], 'locations', 'root')
                mon.is_(node_by_path(want[-1], [x.__name__ for x in want[-2::-1]]), node, 'locations', 'down again')
        elif op == 'others':
            node = pick(inner, b)
            x = Located(node, c % 2)
            y = Located(x, d % 2)
            got = take(LocationIterator(y))
            want = [y, x] + take(LocationIterator(node))
            mon.ev('located-others')
            mon.true(len(got) == len(want) and all(p is q for p, q in zip(got, want)), 'locations', got, 'instead of', want)
            u = Unlocated()
            mon.true(take(LocationIterator(None)) == [] and take(LocationIterator(u))[0] is u
                     and len(take(LocationIterator(u))) == 1, 'locations', 'of nothing and of an object without parent')
            top = Located(u, e % 2)
            got = take(LocationIterator(top))
            mon.true(len(got) == 2 and got[0] is top and got[1] is u, 'locations', got)
