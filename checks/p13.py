"""P13: aliasers are lossless: unalias inverts alias, foreign keys are refused.

Random aliasers, nested chains included, are compared with an independent
reference on random keys: keys around the affixes (own affix repeated, partial,
empty), empty keys, keys of other dictionaries.
"""
from kit import *
from node.behaviors.alias import DictAliaser
from node.behaviors.alias import PrefixAliaser
from node.behaviors.alias import PrefixSuffixAliaser
from node.behaviors.alias import SuffixAliaser
from node.behaviors.alias import AliaserChain

ANCHORS = ['src/node/behaviors/alias.py', 'src/node/utils.py']
RULE = ('a case is a random aliaser (dictionary strict or not, prefix, suffix, both, chains nested up to 3 deep) and 40 '
        'keys derived from its affixes and tables; non-trivial: at least one key was translated and one refused')
QUICK, THOROUGH = 6000, 200000
MIN = {'alias': 100000, 'unalias': 80000, 'refused': 20000, 'round-trip': 80000, 'chain': 1500, 'edited': 3000}
ASSUMPTIONS = ['dictionary aliasers are one-to-one; keys a non-strict dictionary passes through collide with no alias']

CHARS = ['a', 'b', 'x', '-', '_', '', 'ä', '日', ':', '.', '(', '*', '\\', ' ', 'A']


def text(rng, lo=0, hi=4):
    return ''.join(rng.choice(CHARS) for _ in range(rng.randint(lo, hi)))


def gen_aliaser(rng, depth):
    kind = rng.choice(['prefix', 'suffix', 'both', 'dict', 'dict'] + (['chain'] * 3 if depth else []))
    affix = lambda: rng.choice([None, '', text(rng, 1, 3), text(rng, 1, 3), 'x-', '-x'])
    if kind == 'prefix':
        return ['prefix', affix()]
    if kind == 'suffix':
        return ['suffix', affix()]
    if kind == 'both':
        return ['both', affix(), affix()]
    if kind == 'dict':
        n = rng.randint(0, 5)
        keys, vals = [], []
        while len(keys) < n:
            k, v = text(rng, 0, 3), text(rng, 0, 3)
            if k not in keys and v not in vals:
                keys.append(k)
                vals.append(v)
        return ['dict', [[k, v] for k, v in zip(keys, vals)], rng.random() < .6]
    return ['chain', [gen_aliaser(rng, depth - 1) for _ in range(rng.randint(0, 3))], rng.random() < .5]


def gen(rng, i, tier):
    spec = gen_aliaser(rng, 2)
    parts = ['']

    def collect(s):
        if s[0] in ('prefix', 'suffix'):
            parts.append(s[1] or '')
        elif s[0] == 'both':
            parts.extend([s[1] or '', s[2] or ''])
        elif s[0] == 'dict':
            for k, v in s[1]:
                parts.extend([k, v, k, v])
        else:
            for x in s[1]:
                collect(x)
    collect(spec)
    keys = []
    for _ in range(40):
        k = ''.join(rng.choice([rng.choice(parts), rng.choice(parts), text(rng, 0, 2)]) for _ in range(rng.randint(1, 4)))
        if rng.random() < .2 and k:
            k = k[:-1] if rng.random() < .5 else k[1:]
        keys.append(k)
    return {'spec': spec, 'ops': keys}


def build(s):
    if s[0] == 'prefix':
        return PrefixAliaser(s[1]) if s[1] is not None else PrefixAliaser()
    if s[0] == 'suffix':
        return SuffixAliaser(s[1]) if s[1] is not None else SuffixAliaser()
    if s[0] == 'both':
        return PrefixSuffixAliaser(s[1], s[2])
    if s[0] == 'dict':
        return DictAliaser([tuple(x) for x in s[1]], strict=s[2])
    chain = [build(x) for x in s[1]]
    return AliaserChain(tuple(chain) if s[2] else chain)


class Collision(Exception):
    pass


def r_alias(s, k):
    if s[0] == 'prefix':
        return (s[1] or '') + k
    if s[0] == 'suffix':
        return k + (s[1] or '')
    if s[0] == 'both':
        return (s[1] or '') + k + (s[2] or '')
    if s[0] == 'dict':
        for a, real in s[1]:
            if real == k:
                return a
        if s[2]:
            raise KeyError(k)
        if any(a == k for a, _ in s[1]):
            raise Collision()
        return k
    for x in s[1]:
        k = r_alias(x, k)
    return k


def r_unalias(s, k):
    if s[0] == 'prefix':
        p = s[1] or ''
        if k[:len(p)] != p:
            raise KeyError(k)
        return k[len(p):]
    if s[0] == 'suffix':
        p = s[1] or ''
        if p and k[-len(p):] != p:
            raise KeyError(k)
        return k[:len(k) - len(p)]
    if s[0] == 'both':
        # the suffix is the outer one
        return r_unalias(['prefix', s[1]], r_unalias(['suffix', s[2]], k))
    if s[0] == 'dict':
        for a, real in s[1]:
            if a == k:
                return real
        if s[2]:
            raise KeyError(k)
        if any(real == k for _, real in s[1]):
            raise Collision()
        return k
    for x in reversed(s[1]):
        k = r_unalias(x, k)
    return k


def ref(fn, s, k):
    try:
        return 'ok', fn(s, k)
    except KeyError:
        return 'refused', None
    except Collision:
        return 'collision', None


def edit(mon, al, table, k, n):
    keys, vals = [x for x, _ in table], [y for _, y in table]
    mon.ev('edited')
    if n % 3 == 0 and table:
        # another key for an alias: as many as before
        new = k + 'n'
        if new not in vals:
            x = table[n % len(table)]
            al[x[0]] = x[1] = new
    elif n % 3 == 1 and table:
        x = table.pop(n % len(table))
        del al[x[0]]
        if k not in keys:
            # another alias for the key
            al[k] = x[1]
            table.append([k, x[1]])
    elif k not in keys and k + 'v' not in vals:
        al[k] = k + 'v'
        table.append([k, k + 'v'])


def run(case, mon):
    spec = case['spec']
    al = build(spec)
    if spec[0] == 'dict':
        spec = ['dict', [list(x) for x in spec[1]], spec[2]]
    mon.ev('chain' if spec[0] == 'chain' else 'single')
    for n, k in enumerate(case['ops']):
        mon.note('key', k)
        if spec[0] == 'dict' and n % 6 == 5:
            # the dictionary is edited while in use
            edit(mon, al, spec[1], k, n // 6)
        for fn, rfn, back, rback, what in ((al.alias, r_alias, al.unalias, r_unalias, 'alias'),
                                           (al.unalias, r_unalias, al.alias, r_alias, 'unalias')):
            state, want = ref(rfn, spec, k)
            if state == 'collision':
                continue
            mon.ev(what)
            if state == 'refused':
                mon.ev('refused')
                raises(mon, KeyError, 'not-refused', '{} of foreign key {!r} by {}'.format(what, k, spec), fn, k)
                continue
            got = ok(mon, 'translate', '{} of {!r} by {}'.format(what, k, spec), fn, k)
            mon.eq(got, want, 'translate', what, repr(k), spec)
            state, again = ref(rback, spec, got)
            if state == 'collision':
                continue
            # the same key comes back, by the code itself
            mon.ev('round-trip')
            mon.eq(ok(mon, 'round-trip', 'back from {!r}'.format(got), back, got), k, 'round-trip', what, repr(k), spec)
    if spec[0] == 'dict':
        mon.eq(list(al.items()), [tuple(x) for x in spec[1]], 'changed', 'table of the aliaser')
    mon.state(json_sig(spec))


def json_sig(s):
    return s[0] if s[0] != 'chain' else ('chain',) + tuple(json_sig(x) for x in s[1])
