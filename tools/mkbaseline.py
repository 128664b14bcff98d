"""Re-verify every contract on the unchanged tree and record its status (contracts/baseline.json)."""
import json, os, subprocess, sys, tempfile, time, shutil
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
import check
keys = sys.argv[1:]
l = json.loads(subprocess.run([check.VT, '-m', 'contracts.registry', '--list'], cwd=HERE, env=check.ENV, stdout=subprocess.PIPE).stdout)
bp = os.path.join(HERE, 'contracts', 'baseline.json')
base = check.load_json(bp, {})
tmp = tempfile.mkdtemp()
pr = check.Proofs([k for k in l['tasks'] if not keys or any(x in k for x in keys)], l, base, tmp, 3000, 7)
while pr.poll():
    time.sleep(.05)
shutil.rmtree(tmp)
for r in pr.rows:
    base[f"{r['key']}|{r['vi']}"] = dict(status=r['status'], wall_s=round(r['wall_s'], 1), obligations=r['obligations'])
    print(r['status'], r['key'], r['variant'], f"{r['discharged']}/{r['obligations']}", round(r['wall_s'], 1), str(r['reason'])[:150], [(o['label'], o['status']) for o in r['failed']][:4])
if not keys:
    base = {k: v for k, v in base.items() if k.split('|')[0] in l['tasks']}
json.dump(base, open(bp, 'w'), indent=0, sort_keys=True)
