"""P06: UUIDs stay unique within a tree and conflicting use is refused.

The forest of P05 plus UUID assignments and attachments that collide.
"""
import uuid
import p05
from kit import *
from large import build, located
from p05 import FAMILIES, RefForest, edit, spelling

ANCHORS = ['src/node/behaviors/reference.py']
RULE = ('a case is a family of reference-aware classes and 10-50 edits, UUID assignments and conflicting attachments; '
        'non-trivial: ran in agreement with the reference, refusals compared by a full snapshot')
QUICK, THOROUGH = 1200, 25000
MIN = {'mood.falsy': 300, 'mood.equal': 300, 'mood.both': 300, 'plain-value': 100, 'refused.attach': 1500, 'refused.uuid': 800, 'reassigned': 800, 'same-node-twice': 300, 'refused.large': 80}
ASSUMPTIONS = p05.ASSUMPTIONS
W = dict(p05.W, **{'conflict': 10, 'setuuid': 8, 'baduuid': 6, 'twice': 6, 'value': 3, 'missing': 0})


def gen(rng, i, tier):
    return {'cfg': {'fam': i % len(FAMILIES), 'keys': rng.choice([3, 6]), 'mood': rng.choice((None, None) + MOODS),
                    'style': spelling(rng, i), 'big': rng.random() < .03}, 'ops': gen_ops(rng, W, 10, 50, 5)}


def run(case, mon):
    f = RefForest(mon, FAMILIES[case['cfg']['fam']])
    f.setup(case['cfg'])
    f.new(0, 'root')
    f.new(1)
    fresh = [1000]

    def image():
        return [(snap(o, uuids=True, ids=True), id(o.__parent__), o.__name__) for o in f.obj]

    def new_uuid(r):
        for u in f.strangers:
            if r % 5 == 0 and u not in f.ids:
                return u
        fresh[0] += 1
        return uuid.UUID(int=(r << 64) + fresh[0]) if r % 2 else uuid.uuid4()

    for op, a, b, c, d, e in case['ops']:
        n = len(f.obj)
        i, j = a % n, b % n
        mon.ev('op.' + op)
        mon.note(op, i, j, c, d, e)
        if op == 'setuuid':
            u = new_uuid(c)
            if u in f.ids:
                continue
            old = f.ids[i]
            ok(mon, 'uuid', 'assigning a free uuid', setattr, f.obj[i], 'uuid', u)
            f.ids[i] = u
            f.strangers = [x for x in f.strangers if x != u] + ([old] if old not in f.strangers else [])
            f.strangers = f.strangers[-12:]
            mon.ev('reassigned')
            if d % 2:
                # assigning the own uuid again is fine
                ok(mon, 'uuid', 'assigning the own uuid', setattr, f.obj[i], 'uuid', u)
        elif op == 'baduuid':
            tree = [x for x in f.subtree(f.root_of(i)) if x != i]
            if not tree:
                continue
            before = image()
            raises(mon, ValueError, 'uuid-conflict', 'assigning a used uuid', setattr, f.obj[i], 'uuid',
                   f.ids[pick(tree, c)])
            mon.ev('refused.uuid')
            mon.eq(image(), before, 'unchanged', 'after a refused uuid')
        elif op == 'conflict':
            # a fresh leaf or subtree carrying a uuid of the target tree somewhere
            u = f.ids[pick(f.subtree(f.root_of(i)), c)]
            cls = type(f.obj[i])
            top = cls()
            chain = [top]
            for z in range(d // 2 % 4 if d % 13 else 8 + d // 13 % 60):
                x = cls()
                pick(chain, e + z)['x%d' % z] = x
                chain.append(x)
            bad = pick(chain, e)
            bad.uuid = u
            key = pick(['zz', f.kids[i][0][0] if f.kids[i] else 'zz'], e // 7)
            top.__name__ = 'zz'
            before = image()
            mine = snap(top, uuids=True, ids=True)
            o = f.obj[i]
            routes = [(o.__setitem__, (key, top)), (o.update, ([(key, top)],))]
            if f.kid(i, key) is None:
                routes.append((o.setdefault, (key, top)))
            fn, args = pick(routes, e // 3)
            raises(mon, ValueError, 'attach-conflict', 'attaching a used uuid ({} nodes, deep {})'.format(
                len(chain), bad is not top), fn, *args)
            mon.ev('refused.attach')
            mon.ev('refused.large', len(chain) > 8)
            mon.eq(image(), before, 'unchanged', 'tree after a refused attachment')
            mon.eq(snap(top, uuids=True, ids=True), mine, 'unchanged', 'refused subtree')
            mon.true(top.__parent__ is None, 'unchanged', 'parent of the refused node')
            for x in chain[-8:]:
                for y in chain:
                    mon.is_(x.node(y.uuid), y, 'unchanged-index', 'lookup in the refused subtree')
            if d % 2:
                # with a free uuid it is accepted
                bad.uuid = uuid.uuid4()
        elif op == 'twice':
            # a node that is in the tree already, leaf or not
            cand = [x for x in f.subtree(f.root_of(i)) if f.up[x] is not None and i not in f.subtree(x)]
            if not cand:
                continue
            x = pick(cand, c)
            before = image()
            o = f.obj[i]
            key = 'zz%d' % (d % 2)
            if f.kid(i, key) is not None:
                continue
            raises(mon, ValueError, 'attach-conflict', 'attaching a node of the tree again', o.__setitem__, key, f.obj[x])
            mon.ev('same-node-twice')
            mon.ev('refused.attach')
            mon.eq(image(), before, 'unchanged', 'tree after a refused attachment')
        else:
            edit(f, mon, op, a, b, c, d, e, case['cfg']['keys'])
        f.check_index(d % 4 == 0)
        f.check_structure()
        for root in f.roots():
            us = [f.obj[x].uuid for x in f.subtree(root)]
            mon.eq(len(set(us)), len(us), 'unique', 'uuids of a tree')


def fixed(mon):

    def large(cls):
        # one node, deep inside or last of many, makes the whole unfit
        for where in (('w60', 'v119'), tuple('d%d' % i for i in range(30)), ('w0',)):
            root, at = build(cls)
            other, there = build(cls)
            n, m = at[where], there[('w60', 'v3')]
            u = n.uuid
            m.uuid = u
            raises(mon, ValueError, 'large', 'attaching', root.__setitem__, 'x', other)
            located(mon, at, 'large')
            for tree, nodes, foreign in ((root, at, there), (other, there, at)):
                for x in nodes.values():
                    mon.is_(tree.node(x.uuid), x, 'large', 'node of its tree')
                    mon.is_(x.node(tree.uuid), tree, 'large', 'tree of the node')
                for x in foreign.values():
                    if x.uuid != u:
                        mon.is_(tree.node(x.uuid), None, 'large', 'node of the other tree')
            m.uuid = uuid.uuid4()
            root['x'] = other
            for x in list(at.values()) + list(there.values()):
                mon.is_(root.node(x.uuid), x, 'large', 'node of the joined tree')
            x = there[('w0',)]
            raises(mon, ValueError, 'large', 'used uuid', setattr, x, 'uuid', u)
            mon.is_(root.node(u), n, 'large', 'owner')
            mon.is_(root.node(x.uuid), x, 'large', 'refused node')

    for cls in (Node, RefNode, AttributedNode):
        yield 'large-' + cls.__name__, lambda: large(cls)
