#!/usr/bin/env python3
"""Writes /verif/DESIGN.md from design_head.md, the checks, caught.json, known_findings.json and the texts below."""
import ast, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = os.path.join(V, 'tools')

REACH = {
    'P01': 'Every class of node.base, the behaviors assembled by hand and random keys (empty, non-ASCII, numbers, text subclasses) meet long '
           'histories with two instances at once; a unit test samples one order of calls on one class.',
    'P02': 'Locations are wrong only after particular sequences of moves, replacements and removals, on particular node classes, or when '
           'nodes compare equal or are falsy; the monitor looks at every attached node after every edit.',
    'P03': 'The rejection is injected at every level and on every write route, for children which are new, attached elsewhere, falsy, equal, '
           'or classes instead of instances, and the complete before/after state is compared.',
    'P04': 'List semantics in positions 0, last, before/after itself, with node or key references, invalid references and re-insertion are '
           'compared in random sequences, where an early slip of the order shows only later.',
    'P05': 'The index is global state of a tree: it goes wrong on combinations of edits in several trees. Every UUID ever seen is looked up '
           'through nodes of every tree after every edit, so wrongly kept entries show as well as missing ones.',
    'P06': 'Collisions are produced deliberately by every route (attach of single nodes and subtrees, assignment, replacement) and a refusal '
           'is judged by a snapshot of everything, not by the exception alone.',
    'P07': 'Subtrees with attributes and UUIDs are moved again and again; an edit of one tree which shows in another is found since all trees '
           'are compared after each edit.',
    'P08': 'Object graphs of copy and original are compared for shared nodes and containers, and then edited: sharing which only shows after '
           'later edits is found.',
    'P09': 'All UUIDs of a process are recorded, so one repeated anywhere is noticed; trees mix nodes with and without UUIDs over several levels.',
    'P10': 'The backend counts reads, makes new objects, fails, changes behind the cache and looks at the node while it is written; which '
           'combination serves a stale child cannot be enumerated by tests.',
    'P11': 'What must *not* be dropped is checked too, by identity, with loaded, unloaded, unknown and falsy keys.',
    'P12': 'The factory log tells about factories called twice, too early, for unknown keys or after failures, for all combinations with '
           'caches, invalidation, order and user-set children.',
    'P13': 'Keys are made from the affixes and tables (own affix repeated, partial, empty), which is where translation goes wrong.',
    'P14': 'Both sides of the alias are used in one history; a leak of real keys shows in one of the compared views.',
    'P15': 'Exactly-once is a statement on whole histories; a handler logs every event of the process, including ones nobody expected, '
           'after failing edits too.',
    'P16': 'As P15, for attributes: reads, failing edits, edits of nodes moved, copied and shared in every order.',
    'P17': 'Each dispatch has a token, so a call by the wrong dispatch is attributed; subscribers change the bindings while being called.',
    'P18': 'Nested assignments by subscribers, raising subscribers, equal-but-different values and deletions are predicted completely by a '
           'simulation, the order of calls included.',
    'P19': 'Blocks are really nested and left by exceptions through several levels, the same object entered again; the set of active blocks is '
           'known to the reference at each moment.',
    'P20': 'Thread programs are preempted at every line of the code under test in turn. A test sees one schedule.',
    'P21': 'The search order is specified independently and searched in nested dictionaries; lookups fail, nest and are interrupted in between.',
    'P22': 'Two threads in one tree or the lock held after an exception are schedule dependent; every line of the code under test is a '
           'preemption point, lock creation included.',
    'P23': 'Random trees of 14 types with nested values, decoded in process, below parents and in fresh processes; the callback logs show '
           'callbacks called for other nodes.',
    'P24': 'The text is compared with an independent renderer and parsed strictly; encoders are used repeatedly and in between each other, so '
           'state kept from one call shows in the next.',
    'P25': 'Random nested structures against a reference transcoder, with undecodable bytes at random places; aliasing of input and result is '
           'looked for.',
    'P26': 'Three reference mappings per node are compared after operations on any of them; keys at the border of the reserved form are frequent.',
    'P27': 'The text is compared line by line with an independent renderer after random histories, and with the text of an equal tree built '
           'in another order.',
    'P28': 'Interfaces are put on and taken from instances, nodes moved; falsy and empty ancestors and children are frequent.',
    'P29': 'Every write route is tried on every key at random moments; afterwards all reads have to give the recorded objects.',
    'P30': 'The tester is tested by mutation: contract methods are replaced by misbehaving ones at random, one at a time, and each has to be '
           'flagged, and conforming compositions accepted.',
    'P31': 'Several access objects on one mapping, edits through and behind them, names which clash with methods of dictionaries and nodes.',
    'P32': 'The view is live: compared after each change, with duplicate, falsy and unhashable values and values with an equality of their own.',
    'P33': 'The error is scheduled at the n-th use of the storage for random compositions; a swallowing `except` anywhere between storage and '
           'caller shows as a missing error.',
    'P34': 'Random class hierarchies with failing, nested, falsy and preset properties; the counter of each function tells about repeated computation.',
    'P35': 'State shared between instances by mistake only shows on the instance which was *not* touched; all others are compared after each operation.',
    'P36': 'A leak has no effect on results, so no test sees it; weak references tell which objects outlived their use, for random compositions '
           'and failing operations.',
    'P37': 'Random trees mix node classes, dictionaries and values; each path is looked up in all notations, recording nodes and factories tell what was touched beside it.',
    'P38': 'Thousands of compositions in random order are compared with a table of what each behavior stands for, before and after edits.',
    'P39': 'The test uses keys and values which are text already; here every operation gets text, its UTF-8 bytes, bytes which are no text and other keys, on 17 compositions.',
}


def consts(p):
    t = ast.parse(open(os.path.join(V, 'checks', p.lower() + '.py')).read())
    d = {'doc': ast.get_docstring(t)}
    for s in t.body:
        if not isinstance(s, ast.Assign):
            continue
        for tg in s.targets:
            try:
                v = ast.literal_eval(s.value)
            except Exception:
                continue
            if isinstance(tg, ast.Name):
                d[tg.id] = v
            else:
                for a, b in zip(tg.elts, v):
                    d[a.id] = b
    return d


def wrap(text, indent=''):
    import textwrap
    return textwrap.fill(' '.join(text.split()), 100, initial_indent=indent, subsequent_indent=' ' * len(indent))


out = [open(os.path.join(T, 'design_head.md')).read().rstrip(), '', '## Per property', '',
       'Generated by tools/gen_design.py from the checks. *Must have seen* lists the events which have to be observed at',
       'least that often in the quick tier (five times the cases and more in the thorough one); a run which sees less is',
       'inconclusive (exit 2) and not a pass. Times: on 8 idle cores.', '']
try:
    COST = json.load(open(os.path.join(T, 'cost.json')))
except FileNotFoundError:
    COST = {}
for line in open(os.path.join(V, 'properties.jsonl')):
    p = json.loads(line)
    c = consts(p['id'])
    doc = c['doc'].split('\n', 1)[1].strip() if '\n' in c['doc'] else ''
    out += ['### {}: {}'.format(p['id'], p['title']), '', wrap(doc), '', wrap('- *Generated and explored*: ' + c['RULE'] + '.', ''),
            wrap('- *Bounds*: {} cases quick, {} thorough (per run, 6 workers, seed from VERIF_SEED){}.'.format(
                c['QUICK'], c['THOROUGH'], ''.join('; {} s / {} s'.format(*COST[p['id']]) for _ in [0] if p['id'] in COST))),
            wrap('- *Must have seen*: ' + ', '.join('{} {}'.format(k, v) for k, v in c['MIN'].items()) + '.'),
            wrap('- *Why beyond tests*: ' + REACH[p['id']])]
    if c.get('ASSUMPTIONS'):
        out.append(wrap('- *Assumed*: ' + '; '.join(c['ASSUMPTIONS']) + '.'))
    out.append('')

k = json.load(open(os.path.join(V, 'known_findings.json')))
out += ['## Genuine defects found', '',
        'All were shown by a failing history against the real code. Repaired by "fix:" commits in /repo:', '']
for n, f in enumerate(k['fixed'], 1):
    _, prop, commit, what = f.split(' ', 3)
    out.append(wrap('{}. {} ({}): {}'.format(n, prop.split('=')[1], commit, what)))
out += ['', 'Recorded as known findings and not repaired (known_findings.json):', '']
for f in k['open']:
    out.append(wrap('- {} {}: {}'.format(f['id'], f['property'], f['what'])))
out += ['', wrap('F20 is left: the lock is the attribute `_treelock` of the root and the existing tests replace `RLock` by a stand-in '
                 'which they inspect there. A lock which can be copied needs a class of its own around it, which is more than a '
                 'small repair; the check reports this very failure as KNOWN-FINDING and every other failing copy as violation.'), '']

caught = json.load(open(os.path.join(T, 'caught.json')))
out += ['## Planted changes and what catches them', '',
        'Kept in seeded/ (definitions in tools/seeds.py, made and confirmed by tools/plant.py: compile, keep the stable',
        'tests, demo passes without and fails with the change). Each row: the change, what it needs in order to show, the',
        'checks which report it (the check of its property is always tried, others where tried).', '',
        '| change | breaks | needs | caught by |', '|---|---|---|---|']
for d in sorted(os.listdir(os.path.join(V, 'seeded'))):
    m = json.load(open(os.path.join(V, 'seeded', d, 'meta.json')))
    by = caught.get(d, {})
    out.append('| {} | {} | {} | {} |'.format(d, m['what_it_breaks'], m['needs'], ', '.join(sorted(by)) or 'not caught'))
out.append('')
tail = os.path.join(T, 'design_tail.md')
if os.path.exists(tail):
    out.append(open(tail).read().rstrip() + '\n')
open(os.path.join(V, 'DESIGN.md'), 'w').write('\n'.join(out))
