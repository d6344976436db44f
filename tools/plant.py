"""make a planted bug: plant.py ID  (reads /tmp/plant/ID.py: PROPERTY, FILE, OLD, NEW, NEEDS, BREAKS, DEMO)
verifies: patch applies, original lines only, stable tests pass, demo 0 on clean / nonzero with patch; optional check run"""
import json
import os
import shutil
import subprocess as sp
import sys

PY = '/opt/venv/bin/python'
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def run(cmd, cwd=None, env=None, t=900):
    return sp.run(cmd, shell=True, cwd=cwd, env=env, capture_output=True, text=True, timeout=t)


def main(id):
    ns = {}
    exec(open(f'/tmp/plant/{id}.py').read(), ns)
    tree = f'/tmp/planted_{id}'
    run(f'rm -rf {tree}; cp -a /repo {tree}')
    edits = ns.get('EDITS') or [(ns['FILE'], ns['OLD'], ns['NEW'])]
    for f, old, new in edits:
        p = f'{tree}/czone/{f}'
        s = open(p).read()
        n = ns.get('NTH')
        if n is None:
            assert s.count(old) == 1, f'{f}: {s.count(old)} matches of {old!r}'
            s = s.replace(old, new)
        else:
            parts = s.split(old)
            s = old.join(parts[:n + 1]) + new + old.join(parts[n + 1:])
        open(p, 'w').write(s)
    diff = run('git diff', tree).stdout
    # changed lines must be original
    orig_ok = True
    import re
    cur = None
    for l in diff.splitlines():
        if l.startswith('--- a/'):
            cur = l[6:]
        m = re.match(r'@@ -(\d+)', l)
        if m:
            ln = int(m[1])
            continue
        if l.startswith('-') and not l.startswith('---'):
            b = run(f'git -c safe.directory=* blame -s -L {ln},{ln} HEAD -- {cur}', '/repo').stdout
            if not b.lstrip('^').startswith('ccd2b3a'):
                orig_ok = False
                print('NOT ORIGINAL', b)
            ln += 1
        elif l.startswith(' '):
            ln += 1
    d = f'{ROOT}/seeded/{id}'
    os.makedirs(d, exist_ok=True)
    open(f'{d}/patch.diff', 'w').write(diff)
    open(f'{d}/demo.py', 'w').write(ns['DEMO'])
    open(f'{d}/demo.sh', 'w').write('#!/bin/sh\n# run in /repo\nPYTHONPATH="$PWD" exec /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"\n')
    os.chmod(f'{d}/demo.sh', 0o755)
    clean = run(f'{d}/demo.sh', '/repo')
    bad = run(f'{d}/demo.sh', tree)
    out = f'/tmp/plant/{id}.out.json'
    # stable tests on the patched copy
    t = run(f'PYTHONPATH={tree} PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg {PY} -m pytest -q -p no:cacheprovider --timeout=300 '
            f'-o junit_family=xunit2 --junitxml={out}.xml tests; /usr/bin/python3 /opt/vp/results.py {out} junit:{out}.xml', tree)
    base = json.load(open('/opt/vp/BASELINE.json'))
    res = json.load(open(out))
    stable = base.get('stable') or base.get('tests') or base.get('passed') or base
    passed = set(res.get('passed', []))
    missing = [x for x in stable if x not in passed] if isinstance(stable, list) else '?'
    print(id, 'original lines', orig_ok, '| demo clean', clean.returncode, 'bad', bad.returncode, '| failing stable', missing)
    if clean.returncode:
        print(clean.stdout[-800:], clean.stderr[-800:])
    print('   bad says:', (bad.stdout + bad.stderr).strip().splitlines()[-1:] )
    env = dict(os.environ, CZ_REPO=tree)
    caught = []
    for c in ns.get('CHECKS', [ns['PROPERTY']]):
        r = run(f'{PY} -m engine.run {c} --tier quick', ROOT, env)
        print('   check', c, 'exit', r.returncode, [l for l in r.stdout.splitlines() if 'VIOL' in l][:2])
        if r.returncode == 1:
            caught.append(c)
    json.dump(dict(property=ns['PROPERTY'], needs=ns['NEEDS'], what_it_breaks=ns['BREAKS'],
                   caught_by=', '.join(caught) or 'missed'), open(f'{d}/meta.json', 'w'), indent=1)
    shutil.rmtree(tree)


main(sys.argv[1])
