#!/usr/bin/env python3
"""Small changes everywhere in the code: which of them neither the tests nor the checks notice?

    mutate.py gen OUT.json            all small changes, one per entry
    mutate.py tests OUT.json          marks those the existing tests notice
    mutate.py checks OUT.json         runs the checks anchored in the file, then the others, on the rest
    mutate.py show OUT.json           lists what nobody noticed
    mutate.py cond IN.json OUT.json N SEED    N of the changes which the tests notice, made to depend on
                                      something the tests do not do (see rare.py)

To find out where the checks are blind; no registered check uses it.
"""
import ast, concurrent.futures, copy as cp, json, os, re, shutil, subprocess, sys, tempfile
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import plant
from plant import V, at, sh, tests

SRC = '/repo/src/node'
SKIP = ('interfaces.py', 'parts.py', 'compat.py', '__init__.py')


def files():
    for d, ds, fs in os.walk(SRC):
        ds[:] = sorted(x for x in ds if x not in ('tests', 'testing', '__pycache__'))
        for f in sorted(fs):
            if f.endswith('.py') and f not in SKIP:
                yield os.path.relpath(os.path.join(d, f), SRC)


CMP = {ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.Is: ast.IsNot, ast.IsNot: ast.Is, ast.In: ast.NotIn, ast.NotIn: ast.In,
       ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt}


class Find(ast.NodeVisitor):
    """Collects (line, description, fn that changes the tree of a copy in place)."""

    def __init__(self, tree):
        self.found = []
        self.tree = tree
        self.func = 0
        self.nodes = list(ast.walk(tree))
        self.index = {id(n): i for i, n in enumerate(self.nodes)}
        self.visit(tree)

    def add(self, node, what, fn):
        self.found.append((node.lineno, what, self.index[id(node)], fn))

    def visit_FunctionDef(self, node):
        self.func += 1
        self.body(node.body, node)
        for n in node.body:
            self.visit(n)
        for n, d in enumerate(node.args.defaults):
            if isinstance(d, ast.Constant) and d.value in (True, False) and d.value is not None:
                self.add(d, 'default flipped', lambda x: setattr(x, 'value', not x.value))
        self.func -= 1

    def body(self, stmts, owner):
        for n, s in enumerate(stmts):
            if isinstance(s, (ast.FunctionDef, ast.ClassDef, ast.Import, ast.ImportFrom, ast.Pass)):
                continue
            if isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant):
                continue
            self.add(s, 'statement removed', 'pass')
            if isinstance(s, ast.Return) and s.value is not None and not (
                    isinstance(s.value, ast.Constant) and s.value.value is None):
                self.add(s, 'returns None', lambda x: setattr(x, 'value', ast.Constant(None)))
            if n + 1 < len(stmts) and not isinstance(s, (ast.Return, ast.Raise)) and not isinstance(
                    stmts[n + 1], (ast.FunctionDef, ast.ClassDef)):
                self.add(s, 'swapped with next', 'swap')

    def generic_visit(self, node):
        if self.func:
            for f in ('body', 'orelse', 'finalbody'):
                v = getattr(node, f, None)
                if isinstance(v, list) and v and isinstance(v[0], ast.stmt):
                    self.body(v, node)
            self.here(node)
        super().generic_visit(node)

    def here(self, n):
        if isinstance(n, (ast.If, ast.While, ast.IfExp)):
            self.add(n if hasattr(n, 'lineno') else n.test, 'condition negated',
                     lambda x: setattr(x, 'test', ast.UnaryOp(ast.Not(), x.test)))
            if not isinstance(n, ast.While):
                self.add(n, 'condition always true', lambda x: setattr(x, 'test', ast.Constant(True)))
        if isinstance(n, ast.If) and n.orelse:
            self.add(n, 'else removed', lambda x: setattr(x, 'orelse', []))
        if isinstance(n, ast.BoolOp):
            self.add(n, 'and/or', lambda x: setattr(x, 'op', ast.Or() if isinstance(x.op, ast.And) else ast.And()))
            for i in range(len(n.values)):
                self.add(n, 'operand %d dropped' % i, lambda x, i=i: x.values.pop(i))
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            self.add(n, 'not dropped', lambda x: setattr(x, 'operand', ast.UnaryOp(ast.Not(), x.operand)))
        if isinstance(n, ast.Compare) and type(n.ops[0]) in CMP:
            self.add(n, 'comparison changed', lambda x: x.ops.__setitem__(0, CMP[type(x.ops[0])]()))
            if isinstance(n.ops[0], (ast.Is, ast.IsNot)):
                self.add(n, 'is to ==', lambda x: x.ops.__setitem__(0, ast.Eq() if isinstance(x.ops[0], ast.Is) else ast.NotEq()))
                self.add(n, 'by truth', 'truth')
            if isinstance(n.ops[0], (ast.Eq, ast.NotEq)):
                self.add(n, '== to is', lambda x: x.ops.__setitem__(0, ast.Is() if isinstance(x.ops[0], ast.Eq) else ast.IsNot()))
        if isinstance(n, ast.Constant):
            if n.value is True or n.value is False:
                self.add(n, 'flipped', lambda x: setattr(x, 'value', not x.value))
            elif isinstance(n.value, int):
                self.add(n, 'plus one', lambda x: setattr(x, 'value', x.value + 1))
                self.add(n, 'minus one', lambda x: setattr(x, 'value', x.value - 1))
        if isinstance(n, ast.Try):
            for i, h in enumerate(n.handlers):
                self.add(h, 'handler catches everything', lambda x: setattr(x, 'type', ast.Name('Exception', ast.Load())))
                self.add(h, 'handler catches nothing', lambda x: setattr(x, 'type', ast.Name('ZeroDivisionError', ast.Load())))
            if n.finalbody and n.handlers:
                self.add(n, 'finally removed', lambda x: setattr(x, 'finalbody', []))
            if n.finalbody and not n.handlers:
                def straight(x):
                    x.handlers = [ast.ExceptHandler(ast.Name('ZeroDivisionError', ast.Load()), None, [ast.Raise()])]
                    x.orelse, x.finalbody = x.orelse + x.finalbody, []
                self.add(n, 'finally only without error', straight)
        if isinstance(n, ast.With):
            def bare(x):
                pass
            self.add(n, 'with removed', 'with')
        if isinstance(n, ast.Call):
            if isinstance(n.func, ast.Name) and n.func.id in ('list', 'tuple', 'set', 'dict', 'odict', 'reversed', 'sorted',
                                                               '_keys', 'deepcopy', 'str') and len(n.args) == 1:
                self.add(n, n.func.id + '() dropped', 'arg')
            if len(n.args) == 2 and not any(isinstance(a, ast.Starred) for a in n.args):
                self.add(n, 'arguments swapped', lambda x: x.args.reverse())
            if n.keywords:
                for i, k in enumerate(n.keywords):
                    self.add(n, 'keyword %s dropped' % k.arg, lambda x, i=i: x.keywords.pop(i))
            if isinstance(n.func, ast.Name) and n.func.id == 'isinstance' and len(n.args) == 2:
                self.add(n, 'isinstance to type', 'type')
            if isinstance(n.func, ast.Name) and n.func.id in ('getattr',) and len(n.args) == 3:
                self.add(n, 'getattr default None', lambda x: x.args.__setitem__(2, ast.Constant(None)))
        if isinstance(n, ast.BinOp) and isinstance(n.op, (ast.Add, ast.Sub)):
            self.add(n, 'right side dropped', 'left')
            self.add(n, '+/-', lambda x: setattr(x, 'op', ast.Sub() if isinstance(x.op, ast.Add) else ast.Add()))
        if isinstance(n, ast.Subscript) and isinstance(n.slice, ast.Slice):
            self.add(n, 'slice dropped', 'value')
        if isinstance(n, (ast.Break, ast.Continue)):
            self.add(n, 'break/continue', 'bc')


class Put(ast.NodeTransformer):

    def __init__(self, target, new):
        self.target, self.new = target, new

    def visit(self, node):
        if node is self.target:
            return self.new
        return self.generic_visit(node)


def mutants(f):
    src = open(os.path.join(SRC, f)).read()
    tree = ast.parse(src)
    find = Find(tree)
    norm = ast.unparse(tree)
    seen = {norm}
    for line, what, index, fn in find.found:
        t = ast.parse(src)
        node = list(ast.walk(t))[index]
        if fn == 'pass':
            t = Put(node, ast.Pass()).visit(t)
        elif fn == 'swap':
            for p in ast.walk(t):
                for fld in ('body', 'orelse', 'finalbody'):
                    v = getattr(p, fld, None)
                    if isinstance(v, list) and any(x is node for x in v):
                        i = [x is node for x in v].index(True)
                        v[i], v[i + 1] = v[i + 1], v[i]
                        break
                else:
                    continue
                break
        elif fn == 'truth':
            e = node.left
            t = Put(node, ast.UnaryOp(ast.Not(), e) if isinstance(node.ops[0], ast.Is) else e).visit(t)
        elif fn == 'arg':
            t = Put(node, node.args[0]).visit(t)
        elif fn == 'left':
            t = Put(node, node.left).visit(t)
        elif fn == 'value':
            t = Put(node, node.value).visit(t)
        elif fn == 'type':
            t = Put(node, ast.Compare(ast.Call(ast.Name('type', ast.Load()), [node.args[0]], []), [ast.Is()], [node.args[1]])).visit(t)
        elif fn == 'bc':
            t = Put(node, ast.Continue() if isinstance(node, ast.Break) else ast.Break()).visit(t)
        elif fn == 'with':
            class W(ast.NodeTransformer):
                def visit_With(self, n):
                    if n is node:
                        return n.body
                    return self.generic_visit(n)
            t = W().visit(t)
        else:
            fn(node)
        ast.fix_missing_locations(t)
        try:
            new = ast.unparse(t)
            ast.parse(new)
        except Exception:
            continue
        if new in seen:
            continue
        seen.add(new)
        yield {'file': f, 'line': line, 'what': what, 'text': src.split('\n')[line - 1].strip(), 'new': new}


def anchored(f):
    out = []
    for c in sorted(os.listdir(os.path.join(V, 'checks'))):
        m = re.match(r'(p\d\d)\.py$', c)
        if m and 'src/node/' + f in open(os.path.join(V, 'checks', c)).read():
            out.append(m.group(1).upper())
    return out


ALL = ['P%02d' % n for n in range(1, 41) if os.path.exists(os.path.join(V, 'checks', 'p%02d.py' % n))]


def functions(tree):
    out = {}

    def walk(n, path):
        for c in ast.iter_child_nodes(n):
            if isinstance(c, (ast.FunctionDef, ast.ClassDef)):
                p = path + (c.name,)
                k = 0
                while p + (k,) in out:
                    k += 1
                out[p + (k,)] = c
                walk(c, p + (k,))
            else:
                walk(c, path)
    walk(tree, ())
    return out


def conditional(m, name):
    src = open(os.path.join(SRC, m['file'])).read()
    old, new = ast.parse(src), ast.parse(m['new'])
    a, b = functions(old), functions(new)
    best = None
    for p, n in a.items():
        if p not in b or not isinstance(n, ast.FunctionDef):
            continue
        if [ast.dump(x) for x in n.body] != [ast.dump(x) for x in b[p].body]:
            if best is None or len(p) > len(best):
                best = p
    if best is None:
        return None
    n = a[best]
    args = {x.arg for x in n.args.args}
    owner = best[0] if len(best) > 2 else ''
    plain = ('Aliaser' in owner or 'Event' in owner or 'suppress' in owner or owner in (
        'BoundContext', 'UnicodeAware', 'StrCodec', 'Unset', 'instance_property', 'ReverseMapping', 'AttributeAccess'))
    if name in ('big', 'huge', 'one', 'none', 'deep', 'inner', 'full', 'ownname') and (
            plain or not args & {'self', 'node', 'context'}):
        return None
    if name in ('ownname', 'full', 'oddkey', 'nonascii', 'blank', 'long', 'strsub') and not args & {
            'key', 'name', 'path', 'path_', 'prefixed_key', 'suffixed_key', 'aliased_key', 'value', 'event', 'keys', 'a', 'b',
            'node_a', 'node_b'}:
        return None
    if name in ('falsy', 'nullarg') and not args & {'val', 'value', 'default', 'newnode', 'node', 'instance', 'ob', 'data', 'arg'}:
        return None
    test = ast.parse('_rare.cond({!r}, locals(), {!r})'.format(name, '.'.join(map(str, best))), mode='eval').body
    n.body = [ast.If(test=test, body=b[best].body, orelse=n.body)]
    old.body.insert(1 if isinstance(old.body[0], ast.Expr) else 0, ast.parse('from node import _rare').body[0])
    ast.fix_missing_locations(old)
    text = ast.unparse(old)
    return {'file': m['file'], 'line': m['line'], 'what': '[' + name + '] ' + m['what'], 'text': m['text'], 'new': text,
            'rare': True}


def with_mutant(m, fn):
    d, r = plant.copy()
    try:
        if m.get('rare'):
            shutil.copy(os.path.join(V, 'tools', 'rare.py'), os.path.join(r, 'src/node/_rare.py'))
        open(os.path.join(r, 'src/node', m['file']), 'w').write(m['new'])
        return fn(r)
    finally:
        shutil.rmtree(d)


def test(m):
    def go(r):
        try:
            return not (BASE - tests(r))
        except Exception as e:
            return False
    m['survives_tests'] = with_mutant(m, go)
    return m


def check(m):
    def go(r):
        first = anchored(m['file'])
        if ONLY:
            order = [p for p in ONLY]
        else:
            order = first + ([p for p in ALL if p not in first] if DEEP else [])
        for p in order:
            if p in m.get('quiet', []):
                continue
            try:
                code, out = sh(at(r, ['bash', 'check.sh', p, 'quick', '--jobs', '1']), cwd=VC)
            except subprocess.TimeoutExpired:
                return p + ' timeout'
            if code == 1 and 'VIOLATION' in out:
                return p
            if code != 0:
                return p + ' exit %d' % code
            m.setdefault('quiet', []).append(p)
        return None
    m['caught'] = with_mutant(m, go)
    return m


if __name__ == '__main__':
    cmd, out = sys.argv[1], sys.argv[2]
    DEEP = '--deep' in sys.argv
    ONLY = [a for a in sys.argv[3:] if a[0] == 'P']
    pick = [a for a in sys.argv[3:] if a.endswith('.py')]
    if cmd == 'gen':
        ms = [m for f in files() for m in mutants(f)]
        json.dump(ms, open(out, 'w'))
        print(len(ms))
        sys.exit()
    if cmd == 'cond':
        import random, rare
        rnd = random.Random(int(sys.argv[5]))
        got = []
        killed = [m for m in json.load(open(out)) if not m['survives_tests']]
        while len(got) < int(sys.argv[4]):
            new = conditional(rnd.choice(killed), rnd.choice(rare.NAMES))
            if new:
                got.append(new)
        json.dump(got, open(sys.argv[3], 'w'))
        sys.exit()
    ms = json.load(open(out))
    if cmd == 'tests':
        d, r = plant.copy()
        BASE = tests(r)
        shutil.rmtree(d)
        with concurrent.futures.ThreadPoolExecutor(8) as ex:
            for n, m in enumerate(ex.map(test, ms)):
                if n % 50 == 0:
                    print(n, flush=True)
        json.dump(ms, open(out, 'w'))
        print(sum(m['survives_tests'] for m in ms), 'of', len(ms), 'survive the tests')
    elif cmd == 'checks':
        # from a copy, so that evidence and replays of /verif stay
        VC = tempfile.mkdtemp(prefix='mutate-') + '/v'
        shutil.copytree(V, VC, ignore=shutil.ignore_patterns('.git', 'seeded', 'evidence', 'replays'))
        todo = [m for m in ms if m.get('survives_tests') and not m.get('caught') and (not pick or m['file'] in pick)]
        with concurrent.futures.ThreadPoolExecutor(8) as ex:
            for n, f in enumerate(concurrent.futures.as_completed([ex.submit(check, m) for m in todo])):
                m = f.result()
                print(n, len(todo), m['caught'] or 'MISSED', m['file'], m['line'], m['what'], '|', m['text'], flush=True)
                json.dump(list(ms), open(out + '.new', 'w'))
                os.replace(out + '.new', out)
        json.dump(ms, open(out, 'w'))
        shutil.rmtree(os.path.dirname(VC))
    elif cmd == 'show':
        for n, m in enumerate(ms):
            if m.get('survives_tests') and 'caught' in m and not m['caught'] and (not pick or m['file'] in pick):
                print(n, m['file'], m['line'], m['what'], '|', m['text'])
