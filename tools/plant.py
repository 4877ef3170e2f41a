#!/usr/bin/env python3
"""Planted changes: made, confirmed and tried from the definitions in seeds.py.

    plant.py make [ID…]     write seeded/<id>/ for every definition that is confirmed
    plant.py try  [ID…]     run the check of the property against every planted change
    plant.py all  [ID…]     … and all other checks too
"""
import ast, concurrent.futures, json, os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = 'ff5d7c3'
PY = '/opt/venv/bin/python'
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0')
sys.path.insert(0, os.path.join(V, 'tools'))


def sh(cmd, cwd=None, **env):
    p = subprocess.run(cmd, cwd=cwd, env=dict(ENV, **env), capture_output=True, text=True, timeout=1800)
    return p.returncode, p.stdout + p.stderr


def at(r, cmd):
    """The command, in a mount namespace of its own that has the copy in place of /repo (the
    installed package's link goes to /repo/src and wins over PYTHONPATH)."""
    if r == '/repo':
        return cmd
    return ['unshare', '-Urm', 'bash', '-c', 'mount --bind "$0" /repo && exec "$@"', r] + cmd


def copy():
    d = tempfile.mkdtemp(prefix='plant-')
    r = os.path.join(d, 'r')
    shutil.copytree('/repo', r, symlinks=True)
    return d, r


def tests(r):
    out = os.path.join(os.path.dirname(r), 'junit.xml')
    sh(at(r, ['bash', '-c', 'cd /repo && exec "$0" "$@"', PY, '-m', 'pytest', '-q', '-p', 'no:cacheprovider', '--timeout=300',
              '-o', 'junit_family=xunit2', '--junitxml=' + out, 'src/node/tests']))
    import xml.etree.ElementTree as ET
    ok = set()
    for c in ET.parse(out).iter('testcase'):
        if not any(x.tag in ('failure', 'error', 'skipped') for x in c):
            ok.add(c.get('classname') + '::' + c.get('name'))
    return ok


def demo(d, r):
    return sh(at(r, ['bash', '-c', 'cd /repo && exec bash "$0"', os.path.join(d, 'demo.sh')]))


def make(s):
    d, r = copy()
    try:
        for f, old, new in s['edits']:
            p = os.path.join(r, 'src/node', f)
            t = open(p).read()
            if t.count(old) < 1:
                return s['id'], 'NO MATCH in ' + f
            n = s.get('occurrence', {}).get(f, 0)
            parts = t.split(old)
            if len(parts) > 2 and f not in s.get('occurrence', {}):
                return s['id'], 'AMBIGUOUS in ' + f
            t2 = old.join(parts[:n + 1]) + new + old.join(parts[n + 1:])
            ast.parse(t2)
            open(p, 'w').write(t2)
        code, diff = sh(['git', 'diff'], cwd=r)
        # lines taken away must be lines of the original
        base = {}
        gone = mine = 0
        cur = None
        for l in diff.split('\n'):
            if l.startswith('--- '):
                cur = l[6:]
                base[cur] = set(sh(['git', 'show', BASE + ':' + cur], cwd='/repo')[1].split('\n'))
            elif l.startswith('-') and l[1:].strip():
                gone += 1
                mine += l[1:] not in base[cur]
        ok = tests(r)
        if 'all' not in BASELINE:
            BASELINE['all'] = None
        missing = BASELINE['ok'] - ok
        if missing:
            return s['id'], 'TESTS FAIL ' + ', '.join(sorted(missing)[:3])
        dd = os.path.join(V, 'seeded', s['id'])
        os.makedirs(dd, exist_ok=True)
        open(os.path.join(dd, 'patch.diff'), 'w').write(diff)
        open(os.path.join(dd, 'demo.sh'), 'w').write(
            '#!/bin/bash\n# run in the top folder of the repository\nexport PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD/src"\n'
            'exec timeout 120 /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
        open(os.path.join(dd, 'demo.py'), 'w').write(s['demo'].lstrip('\n'))
        json.dump({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['breaks']},
                  open(os.path.join(dd, 'meta.json'), 'w'), indent=1)
        a, oa = demo(dd, '/repo')
        b, ob = demo(dd, r)
        if a != 0 or b == 0:
            shutil.rmtree(dd)
            return s['id'], 'DEMO unchanged={} changed={}\n{}\n{}'.format(a, b, oa[-600:], ob[-300:])
        note = '' if gone and mine < gone else ' (no original line changed: gone={} mine={})'.format(gone, mine)
        return s['id'], 'ok' + note + ' ' + ob.strip().split('\n')[-1][:90]
    finally:
        shutil.rmtree(d)


def attempt(i, props=None, jobs='6'):
    dd = os.path.join(V, 'seeded', i)
    meta = json.load(open(os.path.join(dd, 'meta.json')))
    d, r = copy()
    res = {}
    try:
        code, out = sh(['git', 'apply', os.path.join(dd, 'patch.diff')], cwd=r)
        if code:
            return i, {'apply': out}
        for p in props or [meta['property']]:
            code, out = sh(at(r, ['bash', 'check.sh', p, 'quick', '--jobs', jobs]), cwd=V)
            first = [l for l in out.split('\n') if l.strip()][:1]
            res[p] = (code, first[0].strip()[:150] if first else '')
    finally:
        shutil.rmtree(d)
    return i, res


BASELINE = {}

if __name__ == '__main__':
    cmd, ids = sys.argv[1], sys.argv[2:]
    if cmd == 'make':
        import seeds
        d, r = copy()
        BASELINE['ok'] = tests(r)
        shutil.rmtree(d)
        todo = [s for s in seeds.SEEDS if not ids or s['id'] in ids or any(s['property'] == x for x in ids)]
        with concurrent.futures.ThreadPoolExecutor(7) as ex:
            for i, m in ex.map(make, todo):
                print(i, m, flush=True)
    else:
        cf = os.path.join(V, 'tools', 'caught.json')
        caught = json.load(open(cf)) if os.path.exists(cf) else {}
        ids = [i for i in sorted(os.listdir(os.path.join(V, 'seeded'))) if not ids or i in ids or i.split('-')[0].upper() in ids]
        allp = ['P%02d' % n for n in range(1, 39)] if cmd == 'all' else None
        n = 0
        with concurrent.futures.ThreadPoolExecutor(2) as ex:
            for i, res in ex.map(lambda i: attempt(i, allp, '4'), ids):
                own = json.load(open(os.path.join(V, 'seeded', i, 'meta.json')))['property']
                hit = res.get(own, (0,))[0] == 1
                n += hit
                caught[i] = {k: v[1] for k, v in sorted(res.items()) if v[0] == 1}
                json.dump(caught, open(cf, 'w'), indent=1, sort_keys=True)
                print(('CAUGHT ' if hit else 'MISSED ') + i, {k: v for k, v in res.items() if v[0] != 0 or k == own}, flush=True)
        print(n, 'of', len(ids))
