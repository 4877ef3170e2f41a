"""P24: serialization is pure, deterministic valid JSON; simple mode has no type data.

The JSON text of every mode is parsed strictly (no duplicate names, no
constants outside of JSON) and compared with an independent renderer of the
tree; calls of different modes and encoders are interleaved.
"""
import json
import random
from sergen import *
from serpkg.types import CALLS, REGISTERED, applies, image
from node.serializer import NodeEncoder
from node.serializer import deserialize
from node.serializer import serialize

ANCHORS = ['src/node/serializer.py']
RULE = ('a case is one random tree or list of trees and 4-10 calls of random modes and encoders on it and on parts of '
        'it; non-trivial: every text was valid and agreed with the independent renderer')
QUICK, THOROUGH = 3000, 80000
MIN = {'texts': 15000, 'typed': 3000, 'simple': 3000, 'simple-class': 3000, 'encoder': 2000, 'pure': 3000, 'parts': 2000, 'equal-nodes': 500}
ASSUMPTIONS = ['as for the round trip']


def gen(rng, i, tier):
    return {'seed': rng.randrange(1 << 48), 'list': i % 5 == 0, 'size': rng.choice([0, 3, 12, 40]),
            'few': rng.random() < .4, 'calls': [rng.randrange(R) for _ in range(rng.randint(4, 10))]}


def name_of(ref):
    return '{}.{}'.format(ref.__module__, ref.__qualname__)


def render_value(v, simple):
    if v is UNSET:
        return '<UNSET>'
    if isinstance(v, uuid.UUID):
        return '<UUID>:' + str(v)
    if isinstance(v, dict):
        return {k: render_value(x, simple) for k, x in v.items()}
    if isinstance(v, list):
        return [render_value(x, simple) for x in v]
    if callable(v):
        return name_of(v) if simple else {'__ob__': name_of(v)}
    return v


def render(node, simple, classes):
    """The documented data of a tree."""
    if isinstance(node, list):
        return [render(x, simple, classes) for x in node]
    out = {}
    if classes or not simple:
        out['class'] = name_of(type(node))
    out['name'] = node.__name__
    kids = [render(c, simple, classes) for k, c in node.items()]
    if kids:
        out['children'] = kids
    if isinstance(node, T.ATTRIBUTED):
        out['attrs'] = {k: render_value(v, simple) for k, v in T.attrs_of(node).items()}
    for cls, names in REGISTERED:
        if applies(cls, node):
            vals = {n: render_value(getattr(node, n), simple) for n in names}
            if cls is InitNode:
                out['kw'] = vals
            else:
                out.update(vals)
    return out if simple else {'__node__': out}


def strict(text):
    def pairs(items):
        keys = [k for k, v in items]
        if len(keys) != len(set(keys)):
            raise Violation('json', 'name listed twice: {}'.format(keys))
        return dict(items)

    def constant(name):
        raise Violation('json', '{} is no JSON'.format(name))
    return json.loads(text, object_pairs_hook=pairs, parse_constant=constant)


def ordered(a, b):
    """Equal, in types and in order of attributes too."""
    if isinstance(a, dict) and isinstance(b, dict):
        return set(a) == set(b) and all(ordered(a[k], b[k]) for k in a) and (
            'attrs' not in a or not isinstance(a['attrs'], dict) or list(a['attrs']) == list(b['attrs']))
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and all(ordered(x, y) for x, y in zip(a, b))
    return type(a) is type(b) and a == b


class SimpleEncoder(NodeEncoder):
    simple_mode = True
    include_class = False


class SimpleClassEncoder(NodeEncoder):
    simple_mode = True


class SetEncoder(NodeEncoder):
    """Knows a type more."""

    def default(self, ob):
        if isinstance(ob, (set, frozenset)):
            return {'set': sorted(ob)}
        return super(SetEncoder, self).default(ob)


@plumbing(DefaultInit, Nodify, OdictStorage)
class Loose(object):
    """Leaves name and parent of its children alone."""


MODES = {
    'typed': (lambda ob: serialize(ob), False, True),
    'typed-kw': (lambda ob: serialize(ob, include_class=True), False, True),
    'typed-no': (lambda ob: serialize(ob, False, False), False, True),
    'simple': (lambda ob: serialize(ob, simple_mode=True), True, False),
    'simple-no': (lambda ob: serialize(ob, simple_mode=True, include_class=False), True, False),
    'simple-class': (lambda ob: serialize(ob, simple_mode=True, include_class=True), True, True),
    'simple-positional': (lambda ob: serialize(ob, True, True), True, True),
    'encoder': (lambda ob: json.dumps(ob, cls=NodeEncoder), False, True),
    'encoder-simple': (lambda ob: json.dumps(ob, cls=SimpleEncoder), True, False),
    'encoder-class': (lambda ob: json.dumps(ob, cls=SimpleClassEncoder, sort_keys=False), True, True),
    'encoder-set': (lambda ob: json.dumps(ob, cls=SetEncoder), False, True),
    'encoder-indent': (lambda ob: json.dumps(ob, cls=NodeEncoder, indent=2), False, True),
}
NAMES = sorted(MODES)


def run(case, mon):
    rng = random.Random(case['seed'])
    types = rng.sample(TYPES, 3) if case['few'] else TYPES
    if case['list']:
        ob = [tree(rng, types, [case['size']], 0, n) for n in rng.sample(KEYS, rng.randrange(4))]
    else:
        ob = tree(rng, types, [case['size']], 0, rng.choice([None, 'root', 'ü', '', 'n1']))
    if case['seed'] % 4 == 0:
        # a container which does not adopt lists equal nodes
        box = Loose(name='box')
        for n in range(1 + case['seed'] % 3):
            box['l%d' % n] = BaseNode(name='same')
            box['o%d' % n] = tree(rng, types, [2], 3, 'same')
        if not isinstance(ob, list):
            box['tree'] = ob
            ob = box
        else:
            ob.append(box)
        mon.ev('equal-nodes')
    parts = nodes_of(ob)
    before = image(ob)
    shape = [(id(n), id(n.__parent__), n.__name__, [id(c) for c in n.values()]) for n in parts]
    seen = {}
    for c in case['calls']:
        mode = NAMES[c % len(NAMES)]
        fn, simple, classes = MODES[mode]
        part = ob
        at = -1
        if parts and c % 3 == 0:
            at = (c >> 5) % len(parts)
            part = parts[at]
            mon.ev('parts')
        mon.note(mode, part)
        text = ok(mon, 'serialize', mode, fn, part)
        mon.ev('texts')
        mon.ev('encoder' if mode.startswith('encoder') else 'simple-class' if simple and classes else
               'simple' if simple else 'typed')
        mon.true(type(text) is str, 'json', 'not text')
        try:
            data = strict(text)
        except ValueError as e:
            raise Violation('json', '{}: {!r}'.format(mode, e))
        want = json.loads(json.dumps(render(part, simple, classes)))
        if not ordered(want, data):
            raise Violation('content', '{}: {} expected {}'.format(mode, *first(want, data)))
        if (mode, at) in seen:
            mon.eq(text, seen[mode, at], 'deterministic', mode)
        seen[mode, at] = text
        mon.eq(ok(mon, 'serialize', mode, fn, part), text, 'deterministic', mode, 'twice')
        if c % 7 == 0:
            # a failing or a decoding call in between
            outcome(serialize, set([object()]))
            outcome(serialize, {'a': object()}, simple_mode=True)
        if c % 7 == 1 and not simple and mode != 'encoder-indent':
            deserialize(text)
        if c % 7 == 2:
            mon.eq(json.dumps({'s': {1, 2}}, cls=SetEncoder), '{"s": {"set": [1, 2]}}', 'encoder', 'custom encoder')
    mon.ev('pure')
    if image(ob) != before:
        raise Violation('modified', 'content of the tree changed')
    mon.true([(id(n), id(n.__parent__), n.__name__, [id(c) for c in n.values()]) for n in parts] == shape, 'modified',
             'nodes of the tree changed')
    del CALLS[:]
    mon.state((len(parts), tuple(c % len(NAMES) for c in case['calls'][:2])))


def first(a, b):
    """The first place where they differ."""
    if isinstance(a, dict) and isinstance(b, dict) and set(a) == set(b):
        for k in a:
            if not ordered(a[k], b[k]):
                return first(a[k], b[k])
    if isinstance(a, list) and isinstance(b, list) and len(a) == len(b):
        for x, y in zip(a, b):
            if not ordered(x, y):
                return first(x, y)
    return 'got {}'.format(short(b)), short(a)
