"""Random editing of several trees in lockstep with a structural reference."""
from kit import *


class Forest(object):
    """Reference state: ``kids[i]`` ordered [(key, j)], ``up[i]`` (parent, key) or None.

    ``clean[i]``: node was never taken out of a tree since it was last attached
    (the location of a removed node itself is not specified).
    """

    def __init__(self, mon, factories, keys, limit=24):
        self.mon = mon
        self.factories = factories
        self.keys = keys
        self.limit = limit
        self.obj = []
        self.kids = []
        self.up = []
        self.clean = []
        self.mood = None
        self.big = False
        self.spell = lambda k: k
        self.plain = {}       # (i, key) -> plain value kept among the children

    def setup(self, cfg):
        self.mood = cfg.get('mood')
        self.spell = STYLES[cfg.get('style')]
        self.big = cfg.get('big')
        if self.big:
            self.limit = 60

    def new(self, r, name=None):
        if len(self.obj) >= self.limit:
            return None
        f = pick(self.factories, r)
        if self.mood and r % 3 and isinstance(f, type):
            self.mon.ev('mood.' + self.mood)
            f = moody(f, self.mood)
        n = f(name=name) if name is not None else f()
        self.obj.append(n)
        self.kids.append([])
        self.up.append(None)
        self.clean.append(True)
        return len(self.obj) - 1

    def roots(self):
        return [i for i in range(len(self.obj)) if self.up[i] is None]

    def root_of(self, i):
        while self.up[i] is not None:
            i = self.up[i][0]
        return i

    def subtree(self, i):
        out = [i]
        for k, j in self.kids[i]:
            out.extend(self.subtree(j))
        return out

    def path(self, i):
        out = []
        while self.up[i] is not None:
            out.append(self.up[i][1])
            i = self.up[i][0]
        return out[::-1]

    def kid(self, i, key):
        for k, j in self.kids[i]:
            if k == key:
                return j
        return None

    # model updates
    def m_put(self, i, key, j, pos=None):
        old = self.kid(i, key)
        if old is not None:
            at = [k for k, _ in self.kids[i]].index(key)
            self.kids[i][at] = (key, j)
            self.up[old] = None
            self.clean[old] = False
        elif pos is None:
            self.kids[i].append((key, j))
        else:
            self.kids[i].insert(pos, (key, j))
        self.up[j] = (i, key)
        self.clean[j] = True

    def m_del(self, i, key):
        j = self.kid(i, key)
        self.kids[i] = [x for x in self.kids[i] if x[0] != key]
        self.up[j] = None
        self.clean[j] = False
        return j

    def check_structure(self, ordered=True):
        """Contents of every node are what the reference says."""
        mon = self.mon
        for i, o in enumerate(self.obj):
            got = children(o)
            vals = dict((k, v) for k, v in got if not INode.providedBy(v))
            got = [(k, v) for k, v in got if INode.providedBy(v)]
            mon.eq(vals, dict((k, v) for (x, k), v in self.plain.items() if x == i), 'structure', 'values of node', i)
            exp = [(k, self.obj[j]) for k, j in self.kids[i]]
            if not isinstance(o, UNORDERED):
                mon.true(ident_pairs(got, exp), 'structure', 'children of node', i, 'are', got, 'expected', exp)
            else:
                mon.true(len(got) == len(exp) and all(any(k == x and v is y for x, y in exp) for k, v in got),
                         'structure', 'children of node', i, 'are', got, 'expected', exp)


UNORDERED = (BaseNode, AdoptDictNode, RefDictNode)
