#!/usr/bin/env python3
"""Decides one property:  check.py PXX   (environment: VERIF_SEED, VERIF_TIER)

1. every contract of the property (and, transitively, every callee contract used in a
   proof) is verified against the current source of /repo, function by function;
2. the bounded runtime layer runs the property's public entry points of the real code
   against independent oracles: it replays / searches failing inputs for failed
   obligations and stands in (labelled bounded) for what the verifier cannot reach.
"""
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('TSLEARN_REPO', '/repo')
VT = shutil.which('python3-vt') or '/opt/veriftools/pyvenv/bin/python'
PY = '/opt/venv/bin/python'
NCPU = os.cpu_count() or 4
RTPROCS = 3

ENV = dict(os.environ, KERAS_BACKEND='torch', PYTHONDONTWRITEBYTECODE='1', TSLEARN_REPO=REPO,
           OMP_NUM_THREADS='1', MKL_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1', TF_CPP_MIN_LOG_LEVEL='3',
           PYTHONPATH=HERE, PYTHONHASHSEED='0')


def load_json(p, default):
    try:
        with open(p) as fh:
            return json.load(fh)
    except (OSError, ValueError):
        return default


def known_findings(prop):
    out = {}
    try:
        for l in open(os.path.join(HERE, 'known_findings.txt')):
            l = l.strip()
            if l.startswith('known: ') and f'property={prop} ' in l:
                key = l.split('key=')[1].split()[0]
                out[key] = l.split('key=' + key)[1].strip()
    except OSError:
        pass
    return out


class Proofs:
    """runs verification tasks in parallel, adding the callee contracts used"""

    def __init__(self, keys, listing, baseline, tmp, budget, maxproc):
        self.listing, self.base, self.tmp, self.maxproc = listing, baseline, tmp, maxproc
        self.deadline = time.time() + budget
        self.queue, self.seen, self.running, self.rows = [], set(), [], []
        for k in keys:
            self.add(k)

    def add(self, k):
        if k in self.seen or k not in self.listing['tasks']:
            return
        self.seen.add(k)
        for v in range(self.listing['tasks'][k]['variants']):
            b = self.base.get(f'{k}|{v}', {})
            self.queue.append((k, v, b.get('wall_s', 30)))
        self.queue.sort(key=lambda q: -q[2])

    def poll(self):
        for r in list(self.running):
            k, v, p, out, t0, lim = r
            rc = p.poll()
            if rc is None:
                if time.time() - t0 > lim or time.time() > self.deadline:
                    p.kill()
                    p.wait()
                    self.rows.append(dict(key=k, vi=v, function=k, status='undecided', reason='time limit', obligations=0, discharged=0, cvc5=0,
                                          failed=[], wall_s=time.time() - t0, inlined=[], contracts_used=[], variant=''))
                    self.running.remove(r)
                continue
            self.running.remove(r)
            row = load_json(out, None)
            if row is None:
                err = (p.stderr.read() or b'').decode(errors='replace')[-500:]
                row = dict(key=k, vi=v, function=k, status='unsupported', reason='worker: ' + err, obligations=0, discharged=0, cvc5=0,
                           failed=[], wall_s=time.time() - t0, inlined=[], contracts_used=[], variant='')
            self.rows.append(row)
            for q in row.get('contracts_used', []):
                kk = self.listing['quals'].get(q)
                if kk:
                    self.add(kk)
        while self.queue and len(self.running) < self.maxproc:
            k, v, b = self.queue.pop(0)
            if time.time() > self.deadline:
                self.rows.append(dict(key=k, vi=v, function=k, status='undecided', reason='global time limit', obligations=0, discharged=0, cvc5=0,
                                      failed=[], wall_s=0, inlined=[], contracts_used=[], variant=''))
                continue
            out = os.path.join(self.tmp, f'p{len(self.rows)}_{len(self.running)}_{time.time()}.json')
            p = subprocess.Popen([VT, '-m', 'contracts.registry', k, str(v), out], cwd=HERE, env=ENV, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE)
            self.running.append((k, v, p, out, time.time(), max(60, 8 * b)))
        return bool(self.queue or self.running)


class Runtime:
    """bounded runtime shards"""

    def __init__(self, prop, seed, tier, tmp, budget, nproc, hang=240):
        self.prop, self.tmp, self.hang = prop, tmp, hang
        self.done, self.shards = [], []
        if not os.path.exists(os.path.join(HERE, 'rt', prop.lower() + '.py')):
            return
        for s in range(nproc):
            jit = s == nproc - 1
            self.start(s, seed * 1000 + s, tier, budget, jit)

    def start(self, s, seed, tier, budget, jit):
        out, prog = os.path.join(self.tmp, f'r{s}.json'), os.path.join(self.tmp, f'g{s}.json')
        env = dict(ENV)
        if not jit:
            env['NUMBA_DISABLE_JIT'] = '1'
        p = subprocess.Popen([PY, os.path.join(HERE, 'rt', 'run.py'), self.prop, '--seed', str(seed), '--tier', tier, '--budget', str(budget),
                              '--out', out, '--progress', prog], cwd=self.tmp, env=env, stdout=subprocess.DEVNULL,
                             stderr=open(out + '.err', 'w'))
        self.shards.append(dict(s=s, p=p, out=out, prog=prog, seed=seed, tier=tier, jit=jit, t0=time.time()))

    def poll(self):
        for sh in list(self.shards):
            rc = sh['p'].poll()
            if rc is None:
                g = load_json(sh['prog'], None)
                if g and time.time() - g['start'] > self.hang:
                    sh['p'].kill()
                    sh['p'].wait()
                    self.crash(sh, g, f'no answer after {self.hang} s')
                    self.shards.remove(sh)
                continue
            self.shards.remove(sh)
            r = load_json(sh['out'], None)
            if r is None:
                g = load_json(sh['prog'], None)
                err = ''
                try:
                    err = open(sh['out'] + '.err').read()[-3000:]
                except OSError:
                    pass
                self.crash(sh, g, f'process ended with code {rc}: {err}')
                continue
            for f in r['failures']:
                f['jit'] = sh['jit']
            r['jit'] = sh['jit']
            self.done.append(r)
        return bool(self.shards)

    def crash(self, sh, g, why):
        g = g or dict(case='(import)', round=0)
        self.done.append(dict(evaluations=1, distinct=0, cases={}, samples=[], skipped=0, jit=sh['jit'], rounds=0, failures=[dict(
            property=self.prop, case=g['case'], seed=sh['seed'], round=g['round'], tier=sh['tier'], key=None, jit=sh['jit'],
            error=why, inputs={}, traceback='', crash=True)]))


def replay(path, f, limit):
    env = dict(ENV)
    if not f.get('jit'):
        env['NUMBA_DISABLE_JIT'] = '1'
    try:
        p = subprocess.run([PY, os.path.join(HERE, 'rt', 'run.py'), '--replay', path], env=env, stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, timeout=limit)
        return p.returncode != 0, p.stdout.decode(errors='replace')[-2000:]
    except subprocess.TimeoutExpired:
        return True, 'no answer'


def main():
    prop = sys.argv[1]
    t0 = time.time()
    tier = os.environ.get('VERIF_TIER', 'quick')
    if len(sys.argv) > 2 and sys.argv[2] in ('quick', 'thorough'):
        tier = sys.argv[2]
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    tmp = tempfile.mkdtemp(prefix='tsvc_')
    try:
        return decide(prop, t0, tier, seed, tmp)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def decide(prop, t0, tier, seed, tmp):
    quick = tier == 'quick'
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    p = subprocess.run([VT, '-m', 'contracts.registry', '--list'], cwd=HERE, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    listing = json.loads(p.stdout) if p.returncode == 0 else None
    if listing is None:
        print('registry failed:', p.stderr.decode()[-2000:])
        listing = dict(tasks={}, props={}, quals={}, externals=[])
    baseline = load_json(os.path.join(HERE, 'contracts', 'baseline.json'), {})
    rt = Runtime(prop, seed, tier, tmp, 25 if quick else 500, RTPROCS if quick else 4)
    pr = Proofs(listing['props'].get(prop, []), listing, baseline, tmp, 300 if quick else 700, NCPU - RTPROCS)
    while True:
        a, b = rt.poll(), pr.poll()
        if not b:
            pr.maxproc = 0
        elif not a:
            pr.maxproc = NCPU
        if not a and not b:
            break
        time.sleep(.05)
    # ------------------------------------------------------------ classify
    failed = []
    lost = []
    for r in pr.rows:
        b = baseline.get(f"{r['key']}|{r['vi']}", {})
        if r['status'] == 'failed' and b.get('status') == 'proved':
            failed.append(r)
        elif r['status'] != 'proved' and b.get('status') == 'proved':
            lost.append(r)
    fails = [f for d in rt.done for f in d['failures']]
    extra = None
    if not fails and (failed or lost) and os.path.exists(os.path.join(HERE, 'rt', prop.lower() + '.py')):
        # the verifier lost an obligation: search longer for a failing input before deciding
        extra = Runtime(prop, seed + 77, tier, tmp, 60 if quick else 200, NCPU - 1)
        while extra.poll():
            time.sleep(.05)
        rt.done += extra.done
        fails = [f for d in extra.done for f in d['failures']]
    known = known_findings(prop)
    rdir = os.path.join(HERE, 'replays')
    os.makedirs(rdir, exist_ok=True)
    lines, viol, unrep = [], 0, 0
    seen_known = set()
    oblig = [dict(function=r['function'], variant=r['variant'], failed=r['failed']) for r in failed]
    fails.sort(key=lambda f: (f.get('crash', False), f['case']))
    seen_case = set()
    for f in fails:
        if f.get('key') and f['key'] in known:
            if f['key'] not in seen_known:
                seen_known.add(f['key'])
                lines.append(f"KNOWN-FINDING: property={prop} {known[f['key']]}")
            continue
        if f['case'] in seen_case or viol >= 3:
            continue
        path = os.path.join(rdir, f"{prop}_{f['case'].strip('()')}.json")
        f['failed_obligations'] = oblig
        f['lost_obligations'] = [dict(function=r['function'], reason=r['reason'], failed=r['failed'][:3]) for r in lost]
        f['how_to_replay'] = f"{'' if f.get('jit') else 'NUMBA_DISABLE_JIT=1 '}{PY} {HERE}/rt/run.py --replay {path}"
        with open(path, 'w') as fh:
            json.dump(f, fh, indent=1, default=str)
        ok, outp = False, ''
        for _ in range(2):
            ok, outp = replay(path, f, 240)
            if ok:
                break
        if not ok:
            unrep += 1
            continue
        seen_case.add(f['case'])
        viol += 1
        lines.append(f"  {f['case']}: {f['error'][:600]}")
        for k, v in f['inputs'].items():
            lines.append(f'    {k} = {v[:400]}')
        lines.append(f'VIOLATION property={prop} replay={path}')
    if not viol and failed:
        path = os.path.join(rdir, f'{prop}_obligation.json')
        with open(path, 'w') as fh:
            json.dump(dict(kind='obligation', property=prop, failed_obligations=failed), fh, indent=1, default=str)
        for r in failed:
            for o in r['failed'][:3]:
                lines.append(f"  obligation not discharged: {r['function']} [{r['variant']}] {o['label']} ({o['status']} {o['reason']})")
        lines.append(f'VIOLATION property={prop} replay={path} no-failing-input-found')
        viol += 1
    # ------------------------------------------------------------ evidence
    rows = pr.rows
    nob = sum(r['obligations'] for r in rows)
    nd = sum(r['discharged'] for r in rows)
    notes = load_json(os.path.join(HERE, 'contracts', 'notes.json'), {})
    inl = sorted({i for r in rows for i in r['inlined']})
    ev = dict(property=prop, tier=tier, seed=seed, level='proof' if rows else 'exploration',
              coverage=dict(
                  obligations=nob, discharged=nd,
                  checker_cmd=f'python3 check.py {prop}  (per function: python3-vt -m contracts.registry <function> <variant>)',
                  trusted_base=notes.get('trusted_base', []) + ['assumed model: ' + e for e in listing['externals']],
                  functions=[dict(function=r['function'], variant=r['variant'], status=r['status'], obligations=r['obligations'],
                                  discharged=r['discharged'], by_cvc5=r['cvc5'], reason=r['reason'], solver_and_engine_s=r['wall_s'],
                                  contracts_used=r['contracts_used']) for r in rows],
                  functions_proved=sorted({r['function'] for r in rows if r['status'] == 'proved'}),
                  functions_not_proved=sorted({r['function'] for r in rows if r['status'] != 'proved'}),
                  inlined_helpers=inl,
                  proof_s=round(sum(r['wall_s'] for r in rows), 2),
                  evaluations=sum(d['evaluations'] for d in rt.done),
                  distinct_nontrivial=sum(d['distinct'] for d in rt.done),
                  rule='bounded stand-in / replay layer: random inputs per case (seeded), distinct by recorded input values per shard; never counted as proved',
                  bounded_cases={c: sum(d['cases'].get(c, 0) for d in rt.done) for d in rt.done for c in d['cases']},
                  samples=[s for d in rt.done for s in d['samples']][:6],
                  unreproduced_failures=unrep),
              assumptions=notes.get('assumptions', []) + notes.get(prop, []),
              wall_s=round(time.time() - t0, 2), violations=viol)
    with open(os.path.join(HERE, 'evidence', prop + '.json'), 'w') as fh:
        json.dump(ev, fh, indent=1, default=str)
    np_ = sum(1 for r in rows if r['status'] == 'proved')
    print(f'{prop}: {nd}/{nob} obligations discharged, {np_}/{len(rows)} function contracts proved; '
          f"{ev['coverage']['evaluations']} bounded evaluations; {ev['wall_s']} s")
    for r in rows:
        if r['status'] != 'proved':
            print(f"  not proved: {r['function']} [{r['variant']}] {r['status']}: {str(r['reason'])[:200]}")
    for l in lines:
        print(l)
    return 1 if viol else 0


if __name__ == '__main__':
    sys.exit(main())
