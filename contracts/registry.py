"""Registry of contracts: which function has which contract, and which properties need it."""
import importlib
import json
import os
import pkgutil
import sys

REG = {}          # qualified name -> Contract, used at call sites
TASKS = {}        # key -> (Contract or Lemma)
PROPS = {}        # property -> [key]
from tsvc.models import instantiate_backend
EXTERNALS = {     # qualified name -> python model (assumed, listed in the trusted base)
    'tslearn.backend.instantiate_backend': instantiate_backend,
    'tslearn.backend.backend.instantiate_backend': instantiate_backend,
}


def contract(props, c, key=None, use=True):
    key = key or c.qual
    assert key not in TASKS, key
    TASKS[key] = c
    c.key = key
    if use:
        REG[c.qual] = c
    for p in ([props] if isinstance(props, str) else props):
        PROPS.setdefault(p, []).append(key)
    return c


def lemma(props, l):
    key = 'lemma:' + l.name
    assert key not in TASKS, key
    TASKS[key] = l
    l.key = key
    for p in ([props] if isinstance(props, str) else props):
        PROPS.setdefault(p, []).append(key)
    return l


def load():
    import contracts
    for m in sorted(x.name for x in pkgutil.iter_modules(contracts.__path__)):
        if m.startswith('c_'):
            importlib.import_module('contracts.' + m)
    return TASKS


def run_task(key, variant_idx):
    from tsvc.contract import Lemma, verify
    c = TASKS[key]
    if isinstance(c, Lemma):
        r = c.check().row()
    else:
        r = verify(c, REG, EXTERNALS, c.variants[variant_idx]).row()
    r['key'] = key
    r['vi'] = variant_idx
    return r


def main():
    load()
    if sys.argv[1] == '--list':
        from tsvc.contract import Lemma
        out = {}
        for k, c in TASKS.items():
            lem = isinstance(c, Lemma)
            out[k] = dict(variants=1 if lem else len(c.variants), qual=None if lem else c.qual, title=getattr(c, 'title', ''))
        json.dump(dict(tasks=out, props=PROPS, quals={q: c.key for q, c in REG.items()}, externals=sorted(EXTERNALS)), sys.stdout)
        return
    r = run_task(sys.argv[1], int(sys.argv[2]))
    s = json.dumps(r, default=str)
    if len(sys.argv) > 3:
        with open(sys.argv[3], 'w') as fh:
            fh.write(s)
    else:
        print(json.dumps(r, indent=1, default=str))


if __name__ == '__main__':
    sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
    import contracts.registry as R
    R.main()
