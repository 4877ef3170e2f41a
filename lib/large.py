"""Trees which are wider and deeper than the random ones."""
from kit import *


def walk_pairs(node):
    """[(path, node)] of a tree by reading it."""
    out = [((), node)]
    todo = [((), node)]
    while todo:
        path, n = todo.pop()
        for k in n:
            c = n[k]
            out.append((path + (k,), c))
            todo.append((path + (k,), c))
    return out


def plan(width, depth):
    """Paths of a tree: ``width`` children, as many below one of them, and a chain of ``depth`` nodes."""
    out = [('w%d' % i,) for i in range(width)]
    mid = 'w%d' % (width // 2)
    out += [(mid, 'v%d' % i) for i in range(width)]
    path = ()
    for i in range(depth):
        path += ('d%d' % i,)
        out.append(path)
    return out


def build(cls, width=120, depth=30, name='top'):
    """(root, {path: node})"""
    root = cls(name=name)
    at = {(): root}
    for path in plan(width, depth):
        n = cls()
        at[path[:-1]][path[-1]] = n
        at[path] = n
    return root, at


def located(mon, at, kind, root=None, ordered=True):
    """Every node of ``at`` is where it is expected to be and tells so."""
    root = root if root is not None else at[()]
    kids = {}
    for path in at:
        if path:
            kids.setdefault(path[:-1], []).append(path[-1])
    for path, n in at.items():
        mon.eq(n.path, [root.name] + list(path), kind, 'path')
        mon.is_(n.root, root, kind, 'root of', path)
        if path:
            mon.is_(n.parent, at[path[:-1]], kind, 'parent of', path)
            mon.eq(n.name, path[-1], kind, 'name')
            mon.is_(n.parent[n.name], n, kind, 'child', path)
        got = n.keys()
        exp = kids.get(path, [])
        mon.eq(got if ordered else sorted(got), exp if ordered else sorted(exp), kind, 'keys of', path)
    got = walk_pairs(root)
    mon.eq(len(got), len(at), kind, 'number of nodes')
    for path, n in got:
        mon.is_(at.get(path), n, kind, 'node', path)
    mon.ev('large')
