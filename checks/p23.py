"""P23: serialize then deserialize reproduces the tree.

Round trip monitor: random trees and lists of trees are encoded and decoded, in
process, below a given parent and in new processes; the image (types, names,
order, hierarchy, attributes, custom data) must agree and the log of custom
(de)serializer calls must name exactly the nodes of their types.
"""
import json
import os
import random
import subprocess
import sys
from sergen import *
from serpkg.types import CALLS, REGISTERED, applies, image
from node.serializer import deserialize
from node.serializer import serialize

ANCHORS = ['src/node/serializer.py']
RULE = ('a case is one random tree or list of trees (up to 60 nodes of 20 types) with random nested attribute values and '
        'its round trips; non-trivial: images and callback logs agreed')
QUICK, THOROUGH = 3600, 90000
MIN = {'nodes': 20000, 'values': 20000, 'callbacks': 8000, 'parent': 800, 'lists': 250, 'fresh': 30, 'references': 3000,
       'uuids': 2000, 'unset': 2000, 'again': 500, 'taken-name': 150}
ASSUMPTIONS = ['node types are importable from module level; values are JSON values, UUIDs, UNSET, classes, functions and '
               'lists and dictionaries of them', 'no text starts with the markers, no dictionary has marker keys',
               'attribute names are text']


def gen(rng, i, tier):
    return {'seed': rng.randrange(1 << 48), 'list': i % 5 == 0, 'fresh': i % 48 < 6 and i // 48 % 5 == 0,
            'size': rng.choice([1, 4, 12, 60]), 'few': rng.random() < .4}


def leaves(v):
    if isinstance(v, dict):
        for x in v.values():
            for y in leaves(x):
                yield y
    elif isinstance(v, list):
        for x in v:
            for y in leaves(x):
                yield y
    else:
        yield v


def make(case, rng):
    types = rng.sample(TYPES, 3) if case['few'] else TYPES
    if case['list']:
        names = rng.sample(KEYS, rng.randrange(5) if rng.random() < .8 else len(KEYS))
        return [tree(rng, types, [case['size']], 0, n) for n in names]
    return tree(rng, types, [case['size']], 0, rng.choice([None, 'root', 'ü', '', 'n1']))


def callbacks(mon, kind, nodes, what):
    """Custom callbacks: exactly the nodes of the type, once each."""
    got = [(c, n) for k, c, n in CALLS if k == kind]
    mon.true(all(k == kind for k, c, n in CALLS), 'callbacks', what, 'called others')
    mon.ev('callbacks', len(got))
    del CALLS[:]
    for cls, names in REGISTERED:
        if cls is InitNode and kind == 'deser':
            continue
        want = sorted(id(n) for n in nodes if applies(cls, n))
        have = sorted(id(n) for c, n in got if c is cls)
        if want != have:
            raise Violation('callbacks', '{}: {} callbacks of {} for {} nodes'.format(
                what, len(have), cls.__name__, len(want)))


def same(mon, a, b, kind, what):
    mon.ev('comparisons')
    if a != b:
        raise Violation(kind, '{}: {}'.format(what, difference(a, b)))


def difference(a, b, path=''):
    if type(a) is type(b) and isinstance(a, list) and len(a) == len(b):
        for i, (x, y) in enumerate(zip(a, b)):
            if x != y:
                return difference(x, y, '{}/{}'.format(path, i))
    return 'at {} decoded {} expected {}'.format(path, short(b), short(a))


def run(case, mon):
    rng = random.Random(case['seed'])
    ob = make(case, rng)
    nodes = nodes_of(ob)
    mon.ev('nodes', len(nodes))
    for n in nodes:
        if isinstance(n, T.ATTRIBUTED):
            for v in leaves(list(T.attrs_of(n).values())):
                mon.ev('values')
                mon.ev('references', callable(v) and v is not UNSET)
                mon.ev('uuids', isinstance(v, uuid.UUID))
                mon.ev('unset', v is UNSET)
    img = image(ob)
    del CALLS[:]
    text = ok(mon, 'serialize', 'serialize', serialize, ob)
    callbacks(mon, 'ser', nodes, 'serialize')
    got = ok(mon, 'deserialize', 'deserialize', deserialize, text)
    new = nodes_of(got)
    callbacks(mon, 'deser', new, 'deserialize')
    same(mon, json_safe(img), json_safe(image(got)), 'round-trip', 'tree')
    mon.true(not set(map(id, new)) & set(map(id, nodes)), 'round-trip', 'decoded tree contains original nodes')
    for n in [got] if not case['list'] else got:
        mon.is_(n.__parent__, None, 'round-trip', 'parent of a decoded root')
    same(mon, json_safe(img), json_safe(image(ob)), 'modified', 'original tree')
    mon.state((len(nodes), len(text) // 50))
    if rng.random() < .3:
        # once more from the decoded tree
        mon.ev('again')
        again = deserialize(serialize(got))
        same(mon, json_safe(img), json_safe(image(again)), 'round-trip', 'second round')
        del CALLS[:]
    if rng.random() < .5 and (case['list'] or ob.__name__ is not None):
        into_parent(case, mon, rng, ob, img, text)
    if case['fresh']:
        fresh(mon, [text], [img])


def into_parent(case, mon, rng, ob, img, text):
    roots = ob if case['list'] else [ob]
    parents = [OwnNode, OrderedNode, T.Derived]
    if all(isinstance(r, REFERENCE) for r in roots):
        parents += [AttributedNode, Node, T.LifecycleNode]
    mon.ev('parent')
    parent = rng.choice(parents)(name='parent')
    own = type(parent)()
    other = rng.choice(['first', 'b', 'n1'])
    if roots and rng.random() < .4:
        # there is a child of the name, maybe of the same type, with contents of its own
        other = rng.choice(roots).__name__
        kinds = [t for t in (AttributedNode, T.ReadyNode, T.MarkedToo, type(parent), OrderedNode)
                 if not isinstance(parent, REFERENCE) or issubclass(t, REFERENCE)]
        own = rng.choice(kinds + [type(r) for r in roots if r.__name__ == other and not isinstance(r, InitNode)] * 3)()
        if not isinstance(own, T.LazyNode):
            own['stale'] = AttributedNode()
        if isinstance(own, T.ATTRIBUTED):
            T.attrs_of(own)['stale'] = 1
        mon.ev('taken-name')
    parent[other] = own
    got = ok(mon, 'deserialize', 'deserialize below a parent', deserialize, text, root=parent)
    del CALLS[:]
    got = got if case['list'] else [got]
    names = [r.__name__ for r in roots]
    mon.eq(take(parent), [other] + [n for n in names if n != other], 'parent', 'children of the parent')
    for n, x in zip(names, got):
        mon.is_(parent[n], x, 'parent', 'child', n)
        mon.true(x.__name__ == n and x.__parent__ is parent, 'parent', 'location of', n)
    if other not in names:
        mon.is_(parent[other], own, 'parent', 'child that was there before')
    same(mon, json_safe(img), json_safe(image(got if case['list'] else got[0])), 'round-trip', 'tree below a parent')
    if case['list']:
        mon.ev('lists')


def json_safe(img):
    return json.loads(json.dumps(img))


def fresh(mon, texts, images):
    """Decoded by a process that has imported nothing else."""
    import rt
    env = dict(os.environ, PYTHONPATH=os.pathsep.join([rt.SRC, rt.HERE]))
    p = subprocess.run([sys.executable, '-W', 'ignore', '-m', 'serpkg.fresh'], input=json.dumps(texts), text=True,
                       capture_output=True, env=env, timeout=60, cwd='/')
    if p.returncode:
        raise Violation('fresh', 'process failed: {}'.format(p.stderr[-500:]))
    for (state, got), img in zip(json.loads(p.stdout), images):
        mon.ev('fresh')
        if state != 'ok':
            raise Violation('fresh', 'new process: {}'.format(got))
        same(mon, json_safe(img), got, 'fresh', 'tree decoded by a new process')
