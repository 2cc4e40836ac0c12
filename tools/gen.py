#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the registry."""
import os, sys, json
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import registry as R
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = getattr(R, 'NOT_APPLICABLE', [])


def main():
    out = []
    for pid, p in sorted(R.PROPS.items()):
        anchors = dict(files=p['files'], mechanism=[dict(name=a, where=b) for a, b in p['mech']])
        if p['state']:
            anchors['state'] = [dict(name=a, meaning=b, where=c) for a, b, c in p['state']]
        if p['observe']:
            anchors['observe_at'] = list(p['observe'])
        out.append(dict(id=pid, title=p['title'], statement=p['statement'], quantifier=dict(over=p['over'], text=p['quant']), why_tests_cant=p['why'], anchors=anchors))
    for n in NA:
        out.append(n['prop'])
    for o in out:
        assert len(o['title']) <= 80, o['title']
    out.sort(key=lambda o: o['id'])
    with open(os.path.join(VERIF, 'properties.jsonl'), 'w') as f:
        for o in out:
            f.write(json.dumps(o) + '\n')
    checks = []
    for pid, p in sorted(R.PROPS.items()):
        b = '; '.join(sorted({j.bounds for j in p['jobs'] if j.tier == 'quick' and j.bounds}))
        note = 'Every assertion, memory access and branch on the explored paths is decided by the solver for all values within: %s.' % b
        if p['outside']:
            note += ' Outside: %s.' % p['outside'].rstrip('.')
        note += ' ' + (p['level_note'] or 'Trusts clang, the executor, Z3 and the library stand-ins in rt/; counterexamples are replayed natively before they are reported.')
        checks.append(dict(property=pid, quick_cmd='python3 tools/check.py %s --tier quick' % pid, thorough_cmd='python3 tools/check.py %s --tier thorough' % pid, evidence_file='evidence/%s.json' % pid,
                           technique='symbolic execution of the LLVM bitcode of the real sources, SMT-decided assertions, native replay', level='model_checking', level_note=note))
    m = dict(version=1, setup_cmd='python3 tools/setup.py', checks=checks, not_applicable=[dict(property=n['prop']['id'], reason=n['reason']) for n in NA],
             notes='No hooks in /repo. Checks compile /repo to bitcode and run it in the executor under engine/; see DESIGN.md.')
    json.dump(m, open(os.path.join(VERIF, 'MANIFEST.json'), 'w'), indent=1)
    open(os.path.join(VERIF, 'MANIFEST.json'), 'a').write('\n')

    d = os.path.join(VERIF, 'DESIGN.md')
    t = open(d).read()

    def put(t, a, b, x):
        i, k = t.index(a) + len(a), t.index(b)
        return t[:i] + '\n' + x + t[k:]
    g = ''
    for pid, p in sorted(R.PROPS.items()):
        g += '### %s %s\n\n%s\n\n' % (pid, p['title'], p['statement'])
        g += '*Over:* %s. *Why beyond tests:* %s\n\n' % (p['quant'], p['why'])
        g += '*Code:* %s.\n\n' % '; '.join('%s (%s)' % m for m in p['mech'])
        seen = []
        for j in p['jobs']:
            x = '`%s` %s%s' % (j.entry, j.bounds, ' (thorough)' if j.tier != 'quick' else '')
            if x not in seen:
                seen.append(x)
        g += '*Jobs and bounds:*\n' + ''.join('- %s\n' % x for x in (seen if len(seen) <= 40 else seen[:36] + ['... and %d more of the same kinds for the other formats and sizes (see the registry)' % (len(seen) - 36)])) + '\n'
        if p['outside']:
            g += '*Outside:* %s.\n\n' % p['outside'].rstrip('.')
    t = put(t, '<!-- generated by tools/gen.py from the registry -->', '<!-- end -->', g)
    seeds = json.load(open(os.path.join(VERIF, 'tools', 'seeds.json')))
    x = '| id | property | what it breaks | result |\n|---|---|---|---|\n'
    for s, r in sorted(seeds.items()):
        f = os.path.join(VERIF, 'seeded', s, 'meta.json')
        if os.path.exists(f):
            m = json.load(open(f))
            x += '| %s | %s | %s Needs: %s. | %s |\n' % (s, m['property'], m['what_it_breaks'], m['needs'].rstrip('.'), r)
    t = put(t, '<!-- seeds -->', '<!-- end seeds -->', x)
    open(d, 'w').write(t)


main()
