"""P04: ordered insertion and swap behave like list operations.

Lockstep monitor: one or two ordered containers against plain Python lists.
"""
from kit import *

ANCHORS = ['src/node/behaviors/order.py', 'src/node/behaviors/storage.py']
RULE = ('a case is an ordered node class and 10-70 insertions, swaps, assignments and deletions, valid and invalid; '
        'non-trivial: ran in agreement with the list')
QUICK, THOROUGH = 2500, 50000
MIN = {'swap': 2000, 'insert': 5000, 'rejected': 3000, 'readback': 10000, 'plain': 250, 'inner': 500,
       'own-name': 500, 'moody': 800, 'context.thread': 100}
ASSUMPTIONS = ['a foreign reference node that happens to carry the name of a child is not used']


class SubNode(Node):
    pass


@plumbing(Order)
class LifeOrder(LifecycleOrderedNode):
    allow_non_node_childs = False


@plumbing(Cache, Invalidate)
class CachedOrderNode(OrderNode):
    pass


CLASSES = [OrderNode, Node, AttributedNode, OrderRefNode, LifeOrder, SubNode, LifecycleNode, CachedOrderNode]
W = {'first': 5, 'last': 5, 'before': 8, 'after': 8, 'swap': 8, 'set': 3, 'over': 1, 'del': 4, 'popitem': 1,
     'nameless': 2, 'foreign': 2, 'dup': 3, 'contained': 2, 'swapbad': 1, 'clear': 0.3, 'update': 1, 'detach': 2,
     'badref': 1, 'uuid': 1, 'plain': 1.5}


def gen(rng, i, tier):
    return {'cfg': {'cls': i % len(CLASSES), 'keys': rng.choice([4, 9, 15] * 5 + [70]), 'style': style(rng),
                    'bury': rng.randrange(R), 'plain': rng.random() < .3,
                    'mood': rng.choice((None, None) + MOODS)}, 'ops': gen_ops(rng, W, 10, 70)}


def run(case, mon):
    cls = moody(CLASSES[case['cfg']['cls']], case['cfg'].get('mood'))
    mon.ev('moody', bool(case['cfg'].get('mood')))
    box = cls('box')
    model = []
    keys = styled(case['cfg'].get('style'), ['k%d' % i for i in range(case['cfg']['keys'])] + ['', 'ä', 'k'])
    if bury(box, case['cfg'].get('bury', 0), keys):
        mon.ev('inner')
    if box.__name__ in keys:
        mon.ev('own-name')
    ref_aware = hasattr(cls, 'uuid')
    spare = []

    def check(full):
        mon.ev('readback')
        got = take(box)
        mon.eq(got, [k for k, v in model], 'order', 'iteration')
        mon.eq(len(box), len(model), 'len', 'len')
        mon.true(same_seq(box.values(), [v for k, v in model]), 'values', 'values', box.values(), model)
        if full:
            mon.eq(take(box.keys()), [k for k, v in model], 'order', 'keys()')
            mon.eq(take(box.iterkeys()), [k for k, v in model], 'order', 'iterkeys()')
            mon.true(ident_pairs(box.items(), model), 'items', 'items', box.items(), model)
            mon.true(ident_pairs(take(box.iteritems()), model), 'items', 'iteritems')
            mon.true(same_seq(take(box.itervalues()), [v for k, v in model]), 'values', 'itervalues')
            for k, v in model:
                mon.is_(box[k], v, 'item', k)
                mon.true(k in box, 'contains', k)
                mon.true(not INode.providedBy(v) or v.__name__ == k and v.__parent__ is box, 'location', 'inserted', k)
            for k in keys:
                if k not in [x for x, y in model]:
                    mon.true(k not in box, 'contains', k)
            mon.eq([x.split(': ')[-1] for x in box.treerepr().split('\n')[1:-1] if x.startswith('  <')],
                   [k for k, v in model if INode.providedBy(v)], 'order', 'treerepr')
        mon.state(tuple(k for k, v in model))

    def free(r):
        used = [k for k, v in model]
        f = [k for k in keys if k not in used]
        return pick(f, r) if f else None

    def node(name, r=0):
        n = cls(name)
        if r % 4 == 0:
            n['sub'] = cls()
        return n

    def refused(what, fn, *args):
        mon.ev('rejected')
        raises(mon, (KeyError, ValueError), 'refuse', what, fn, *args)

    def untouched(n, was, what):
        mon.true(n.__name__ == was[0] and n.__parent__ is was[1], 'reverted', what, was, n.__name__)

    plain = case['cfg'].get('plain') and not issubclass(cls, LifeOrder)
    if plain:
        box.allow_non_node_childs = True
    for op, a, b, c, d in case['ops']:
        n = len(model)
        # places of nodes, reference nodes are taken from there
        at_nodes = [i for i, (k, v) in enumerate(model) if INode.providedBy(v)]
        refs = [model[i] for i in at_nodes]
        mon.note(op, a, b, c)
        if op in ('first', 'last', 'before', 'after'):
            k = free(a)
            if k is None or (op in ('before', 'after') and not refs):
                continue
            if spare and d % 3 == 0:
                x = spare.pop()
                x.__name__ = k
            else:
                x = node(k, b)
            if op == 'first':
                ok(mon, 'insert', 'insertfirst', box.insertfirst, x)
                at = 0
            elif op == 'last':
                ok(mon, 'insert', 'insertlast', box.insertlast, x)
                at = n
            else:
                ri = pick(at_nodes, c)
                ref = model[ri][1]
                if op == 'before':
                    ok(mon, 'insert', 'insertbefore', box.insertbefore, x, ref)
                    at = ri
                else:
                    ok(mon, 'insert', 'insertafter', box.insertafter, x, ref)
                    at = ri + 1
            model.insert(at, (k, x))
            mon.ev('insert')
            mon.ev('position.%s' % ('first' if at == 0 else 'last' if at == n else 'middle'))
        elif op == 'plain' and plain:
            k = free(a)
            if k is None:
                continue
            x = [1, None, 'text', [], 0][b % 5]
            ok(mon, 'set', 'plain value', box.__setitem__, k, x)
            model.append((k, x))
            mon.ev('plain')
        elif op == 'swap' and len(refs) > 1:
            x, y = pick(at_nodes, a), pick(at_nodes, b)
            if d % 3 == 0:
                y = at_nodes[(at_nodes.index(x) + 1) % len(refs)]
            if x == y:
                continue
            ok(mon, 'swap', 'swap', box.swap, model[x][1], model[y][1])
            model[x], model[y] = model[y], model[x]
            mon.ev('swap')
            mon.ev('swap.adjacent' if abs(x - y) == 1 else 'swap.apart')
        elif op == 'swapbad':
            x = node('stranger')
            if refs:
                y = pick(refs, a)[1]
                refused('swap with a stranger', box.swap, *(pick([(x, y), (y, x)], b)))
        elif op == 'set':
            k = free(a)
            if k is None:
                continue
            x = node(None, b)
            ok(mon, 'set', 'set', box.__setitem__, k, x)
            model.append((k, x))
        elif op == 'over' and n:
            x = node(None, b)
            k = model[a % n][0]
            ok(mon, 'set', 'overwrite', box.__setitem__, k, x)
            model[a % n] = (k, x)
        elif op == 'update':
            x, y = node(None), node(None)
            ks = [k for k in (free(a), free(b)) if k is not None]
            if len(set(ks)) < 2:
                continue
            ok(mon, 'set', 'update', box.update, list(zip(ks, (x, y))))
            model.extend(zip(ks, (x, y)))
        elif op in ('del', 'detach') and n:
            k, x = model.pop(a % n)
            if op == 'del':
                ok(mon, 'delete', 'del', box.__delitem__, k)
            else:
                mon.is_(ok(mon, 'delete', 'detach', box.detach, k), x, 'detach', k)
                if INode.providedBy(x):
                    spare.append(x)
        elif op == 'popitem' and n:
            k, x = model.pop()
            got = ok(mon, 'delete', 'popitem', box.popitem)
            mon.true(got[0] == k and got[1] is x, 'popitem', got, (k, x))
            if INode.providedBy(x):
                spare.append(x)
        elif op == 'clear':
            ok(mon, 'delete', 'clear', box.clear)
            model = []
        elif op == 'nameless':
            x = node(None, b)
            was = (None, None)
            fns = [(box.insertfirst, (x,)), (box.insertlast, (x,))]
            if refs:
                ref = pick(refs, c)[1]
                fns += [(box.insertbefore, (x, ref)), (box.insertafter, (x, ref))]
            fn, args = pick(fns, a)
            refused('inserting a nameless node', fn, *args)
            untouched(x, was, 'nameless node')
        elif op in ('foreign', 'badref'):
            k = free(a)
            if k is None:
                continue
            x = node(k, b)
            ref = node('stranger')
            if op == 'badref':
                home = cls('home')
                home['stranger'] = ref
            refused('inserting at a stranger', pick([box.insertbefore, box.insertafter], c), x, ref)
            untouched(x, (k, None), 'node refused for its reference')
        elif op == 'dup' and refs:
            k = model[a % n][0]
            x = node(k, b)
            ref = pick(refs, c)[1]
            fn, args = pick([(box.insertfirst, (x,)), (box.insertlast, (x,)), (box.insertbefore, (x, ref)),
                             (box.insertafter, (x, ref))], d)
            refused('inserting a used name', fn, *args)
            untouched(x, (k, None), 'node refused for its name')
        elif op == 'contained' and refs:
            k, x = pick(refs, a)
            ref = pick(refs, c)[1]
            fn, args = pick([(box.insertfirst, (x,)), (box.insertlast, (x,)), (box.insertbefore, (x, ref)),
                             (box.insertafter, (x, ref))], d)
            refused('inserting a child again', fn, *args)
            untouched(x, (k, box), 'child inserted again')
            if ref_aware:
                subs = [y for _, y in refs if 'sub' in y]
                if subs:
                    s = pick(subs, b)['sub']
                    if 'sub' not in box:
                        fn, args = pick([(box.insertfirst, (s,)), (box.insertlast, (s,)),
                                         (box.insertbefore, (s, ref)), (box.insertafter, (s, ref))], d)
                        home = s.__parent__
                        refused('inserting a grandchild', fn, *args)
                        untouched(s, ('sub', home), 'grandchild')
                        mon.is_(home['sub'], s, 'reverted', 'home of the grandchild')
        elif op == 'uuid' and ref_aware and refs:
            k = free(a)
            if k is None:
                continue
            x = cls(k)
            deep = x
            for z in range(b % 3):
                deep['deep'] = cls()
                deep = deep['deep']
            ref = pick(refs, c)[1]
            deep.uuid = pick([box, ref], d // 4).uuid
            fn, args = pick([(box.insertfirst, (x,)), (box.insertlast, (x,)), (box.insertbefore, (x, ref)),
                             (box.insertafter, (x, ref))], d)
            refused('inserting a used uuid', fn, *args)
            untouched(x, (k, None), 'node refused for its uuid')
        check(d % 4 == 0)
    check(True)
