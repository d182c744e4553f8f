"""writes properties.jsonl and MANIFEST.json (both committed)"""
import json, subprocess
P = []
LG, TG = 'src/linear_gkr/', 'src/traditional_gkr/'


def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), technique='', note=''):
    P.append((dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                   anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], state=list(state), observe_at=list(observe), hook_needed=False)), technique, note))


exec(open('props_text.py').read())
TECH = 'contract-based deductive verification: obligations generated from the typed AST of the real source on every run, discharged by an induction-based loop summariser with polynomial normal forms over the field plus z3 for integer side conditions'
with open('properties.jsonl', 'w') as f:
    for d, t, n in P:
        f.write(json.dumps(d) + '\n')
fixes = subprocess.run(['git', '-C', '/repo', 'log', '--format=%h %s'], stdout=subprocess.PIPE).stdout.decode().splitlines()
m = dict(version=1, setup_cmd='python3-vt -c "import z3" && clang++ --version >/dev/null && z3 --version >/dev/null',
         hooks=dict(guard='LIBRA_VERIF', enable='none needed: no hooks were added to the sources', source_commits=[]),
         checks=[dict(property=d['id'], quick_cmd='python3 check.py %s quick' % d['id'], thorough_cmd='python3 check.py %s thorough' % d['id'],
                      evidence_file='evidence/%s.json' % d['id'], technique=(t or TECH), level='proof', level_note=n or 'Every obligation is regenerated from the current source and holds for all inputs; assumptions are listed in the evidence file.')
                 for d, t, n in P if d['id'] not in NA],
         not_applicable=[dict(property=k, reason=v) for k, v in NA.items()],
         notes='A failed obligation is replayed by a search for a concrete failing input on the real code; functions a change moves outside the verifier\'s reach are covered by the bounded replay run and labelled bounded in the evidence.')
json.dump(m, open('MANIFEST.json', 'w'), indent=1)
