#!/usr/bin/env python3
"""Undo each repair in a scratch copy; the check of its property has to report it again."""
import concurrent.futures, json, os, shutil, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import plant


def one(entry):
    prop, commit = entry.split('property=')[1].split()[:2]
    d, r = plant.copy()
    try:
        code, out = plant.sh(['git', '-C', r, 'revert', '-n', commit])
        if code:
            return commit, prop, 'CONFLICT'
        vc = os.path.join(d, 'v')
        shutil.copytree(plant.V, vc, ignore=shutil.ignore_patterns('seeded', '.git', 'replays', '__pycache__'))
        code, out = plant.sh(plant.at(r, ['bash', 'check.sh', prop, 'quick', '--jobs', '2']), cwd=vc)
        return commit, prop, 'reported' if code == 1 and 'VIOLATION property=' + prop in out else 'MISSED {} {}'.format(
            code, out.strip().splitlines()[-1:])
    finally:
        shutil.rmtree(d)


if __name__ == '__main__':
    entries = json.load(open(os.path.join(plant.V, 'known_findings.json')))['fixed']
    with concurrent.futures.ThreadPoolExecutor(4) as ex:
        for x in ex.map(one, entries):
            print(*x, flush=True)
