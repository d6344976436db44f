"""write properties.jsonl and MANIFEST.json from tools/spec.py"""
import json
import os
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, 'tools'))
from spec import SPEC, NA, TESTS  # noqa: E402

PY = '/opt/venv/bin/python'
TECH = "symbolic execution of the real source with z3 (SMT) deciding every path; counterexamples replayed"


def prop(d):
    return dict(id=d['id'], title=d['title'], statement=d['statement'],
                quantifier=dict(over=d['over'], text=d['text']), why_tests_cant=d['why'],
                anchors=dict(files=d['files'], mechanism=[dict(name=n, where=w) for n, w in d['mech']],
                             **({'observe_at': d['observe']} if d.get('observe') else {})))


def main():
    spec = [d for d in SPEC if os.path.exists(os.path.join(ROOT, 'props', d['id'] + '.py'))]
    lines = [prop(d) for d in spec]
    for i, t, s, o, x, w, f, m, r in NA:
        lines.append(prop(dict(id=i, title=t, statement=s, over=o, text=x, why=TESTS + w, files=f, mech=m)))
    for p in lines:
        assert len(p['title']) <= 80, (p['id'], len(p['title']))
    with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as f:
        for p in lines:
            f.write(json.dumps(p) + '\n')
    man = dict(version=1, setup_cmd=f"{PY} -m engine.selftest",
               checks=[dict(property=d['id'], quick_cmd=f"{PY} -m engine.run {d['id']} --tier quick",
                            thorough_cmd=f"{PY} -m engine.run {d['id']} --tier thorough",
                            technique=TECH, level='model_checking', level_note=d['level_note']) for d in spec],
               not_applicable=[dict(property=n[0], reason=n[8]) for n in NA],
               notes="No hooks: the code under test is loaded unmodified from /repo with its numpy/scipy names bound to a symbolic shim.")
    with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as f:
        json.dump(man, f, indent=1)
        f.write('\n')


main()


def design():
    tm = open(os.path.join(ROOT, 'tools', 'DESIGN.tmpl')).read()
    out = []
    for d in SPEC:
        if not os.path.exists(os.path.join(ROOT, 'props', d['id'] + '.py')):
            continue
        src = open(os.path.join(ROOT, 'props', d['id'] + '.py')).read()
        import re
        cases = re.findall(r"Case\((f?['\"][^'\"]+['\"]), (\w+), f?'((?:[^'\\]|\\.)*)'", src)
        checks = []
        for c in re.findall(r"S\.(?:check|eq)\(\s*f?'([^'{]+)'", src):
            if c not in checks:
                checks.append(c)
        out.append(f"### {d['id']} {d['title']}\n{d['statement']}\n\n"
                   f"*Decided by:* executing {', '.join(n for n, _ in d['mech'])} symbolically; asserted against an oracle written in "
                   f"`props/{d['id']}.py` from the statement: {'; '.join(checks)}.\n\n"
                   f"*Bounds:* {d['text']} {d['level_note'].replace('Real arithmetic instead of floating point; counterexamples are replayed on the unpatched code with numpy floats before they are reported. ', '')}\n\n"
                   f"*Cases:* {'; '.join(n.strip(chr(39)) .replace('f' + chr(39), '') + ' (' + b + ')' for n, _, b in cases)}\n\n"
                   f"*Beyond the tests:* {d['why']}\n")
    rows = ['| planted bug | property | needs | caught by |', '|---|---|---|---|']
    sd = os.path.join(ROOT, 'seeded')
    for n in sorted(os.listdir(sd)) if os.path.isdir(sd) else []:
        mf = os.path.join(sd, n, 'meta.json')
        if os.path.exists(mf):
            m = json.load(open(mf))
            rows.append(f"| {n}: {m['what_it_breaks']} | {m['property']} | {m['needs']} | {m.get('caught_by', '?')} |")
    tm = tm.replace('@@PROPS@@', '\n'.join(out)).replace('@@SEEDED@@', '\n'.join(rows))
    open(os.path.join(ROOT, 'DESIGN.md'), 'w').write(tm)


design()
