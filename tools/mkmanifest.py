"""MANIFEST.json from the registry: properties with contracts are claimed, others listed under not_applicable."""
import json, os, subprocess, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
import check
l = json.loads(subprocess.run([check.VT, '-m', 'contracts.registry', '--list'], cwd=HERE, env=check.ENV, stdout=subprocess.PIPE).stdout)
base = check.load_json(os.path.join(HERE, 'contracts', 'baseline.json'), {})
props = [json.loads(x) for x in open(os.path.join(HERE, 'properties.jsonl'))]
NA = check.load_json(os.path.join(HERE, 'contracts', 'not_applicable.json'), {})
NOTE = check.load_json(os.path.join(HERE, 'contracts', 'notes.json'), {}).get('level_notes', {})
checks, na = [], []
for p in props:
    i = p['id']
    if i in NA:
        na.append(dict(property=i, reason=NA[i]))
        continue
    keys = l['props'].get(i, [])
    rt = os.path.exists(os.path.join(HERE, 'rt', i.lower() + '.py'))
    if not rt:
        na.append(dict(property=i, reason='no contract within reach expresses this property on the real code, and no bounded contract check has been built for it'))
        continue
    proved = sorted({k for k in keys if all(base.get(f'{k}|{v}', {}).get('status') == 'proved' for v in range(l['tasks'][k]['variants']))})
    fn = [k for k in proved if not k.startswith('lemma:')]
    lem = [k[6:] for k in proved if k.startswith('lemma:')]
    if not fn:
        checks.append(dict(property=i, quick_cmd=f'python3 check.py {i}', thorough_cmd=f'python3 check.py {i} thorough',
                           technique='bounded runtime contract checking of the real code against specification oracles (stand-in: the functions are not within the verifier\'s reach)',
                           level='exploration', level_note='Bounded: random inputs per case within the sizes stated in DESIGN.md; nothing is proved for this property. ' + NOTE.get(i, '')))
        continue
    checks.append(dict(property=i, quick_cmd=f'python3 check.py {i}', thorough_cmd=f'python3 check.py {i} thorough',
                       technique='contract-based deductive verification of the real Python source (VC generation over the AST, z3/cvc5), with a bounded runtime replay layer',
                       level='proof',
                       level_note=(f"Proved for all inputs: contracts of {len(fn)} functions ({', '.join(k.split('.')[-2] + '.' + k.split('.')[-1] for k in fn)[:900]})"
                                   + (f" and {len(lem)} lemmas" if lem else '') + '. ' + NOTE.get(i, '') +
                                   ' Floats are treated as extended reals, numpy/backend primitives as models (see evidence trusted_base); everything else reached by the public entry points is only covered by the bounded runtime layer.'),
                       theorems=proved))
m = dict(version=1, setup_cmd='python3 tools/setup.py', checks=checks, not_applicable=na,
         notes='check.py PXX re-verifies every contract against /repo\'s current source, then replays / searches failing inputs on the real code.')
json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'claimed', [c['property'] for c in checks], 'na', [x['property'] for x in na])
