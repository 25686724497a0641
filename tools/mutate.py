#!/usr/bin/env python3
"""Sensitivity: run checks on mutated copies of /repo (run by hand).

  tools/mutate.py reverts [SUBSTR]     undo each fix: commit, run its property's check
  tools/mutate.py seeded [SUBSTR]      apply each seeded/<id>/patch.diff, run its property's check
  tools/mutate.py file MUTANTS.py [SUBSTR]   MUTANTS = [(name, [props], file, old, new)]
"""
import json
import os
import runpy
import shutil
import subprocess
import sys
import tempfile

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def sh(*a, **k):
    return subprocess.run(a, capture_output=True, text=True, **k)


def check(d, prop):
    env = dict(os.environ, DST_REPO=d, DST_NOMIN='1', VERIF_SEED=os.environ.get('VERIF_SEED', '1'), VERIF_TIER='quick')
    p = sh(V + '/bin/check', prop, 'quick', env=env, timeout=1500)
    v = [l for l in p.stdout.splitlines() if l.startswith('violation class')]
    return p.returncode, (v or p.stdout.splitlines()[-1:] + p.stderr.splitlines()[-1:])


def copy():
    d = tempfile.mkdtemp(prefix='mut.')
    sh('cp', '-a', '/repo/dppy', d + '/dppy')
    sh('cp', '-a', '/repo/.git', d + '/.git')
    return d


def main():
    mode = sys.argv[1]
    todo = []
    if mode == 'reverts':
        sub = sys.argv[2] if len(sys.argv) > 2 else ''
        for l in open(V + '/KNOWN_FINDINGS.jsonl'):
            k = json.loads(l)
            if k['status'] == 'fixed' and sub in l:
                todo.append((k['commit'], [k['property']], k['what']))
    elif mode == 'seeded':
        sub = sys.argv[2] if len(sys.argv) > 2 else ''
        for i in sorted(os.listdir(V + '/seeded')):
            if sub in i:
                todo.append((i, [json.load(open(V + '/seeded/%s/meta.json' % i))['property']]))
    else:
        sub = sys.argv[3] if len(sys.argv) > 3 else ''
        todo = [m for m in runpy.run_path(sys.argv[2])['MUTANTS'] if sub in m[0]]
    for m in todo:
        d = copy()
        try:
            if mode == 'reverts':
                diff = sh('git', '-C', '/repo', 'show', '-R', m[0], '--', 'dppy').stdout
                p = sh('git', '-C', d, 'apply', '-3', '-', input=diff) if diff.strip() else None
                if p is None or p.returncode:
                    p2 = subprocess.run(['patch', '-p1', '-s', '-d', d], input=diff, capture_output=True, text=True)
                    if p2.returncode:
                        print('CANNOT-REVERT', m[0], m[2][:80])
                        continue
            elif mode == 'seeded':
                if sh('git', '-C', d, 'apply', V + '/seeded/%s/patch.diff' % m[0]).returncode:
                    print('NO-APPLY', m[0])
                    continue
            else:
                f = d + '/' + m[2]
                s = open(f).read()
                if isinstance(m[3], tuple):              # ('pos', line, col, end, text)
                    ls = s.splitlines(True)
                    _, ln, a, b, txt = m[3]
                    ls[ln - 1] = ls[ln - 1][:a] + txt + ls[ln - 1][b:]
                    open(f, 'w').write(''.join(ls))
                elif s.count(m[3]) < 1:
                    print('NO-MATCH', m[0])
                    continue
                else:
                    open(f, 'w').write(s.replace(m[3], m[4], 1))
            for prop in m[1]:
                rc, out = check(d, prop)
                if rc == 0 and os.environ.get('MUT_ANY') and prop != m[1][-1]:
                    continue                        # caught by any of the checks is enough
                print('%-8s %s %s | %s' % ({1: 'CAUGHT', 0: 'MISSED'}.get(rc, 'RC%d' % rc), prop, m[0],
                                           ' '.join(out)[:230]), flush=True)
                if rc == 1 and os.environ.get('MUT_ANY'):
                    break
        finally:
            shutil.rmtree(d)


main()
