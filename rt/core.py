"""Bounded runtime contract checks of the real code (never counted as proved).

A *case* is a function taking a context `t`; it draws inputs from t.rng, calls the
real tslearn functions and compares with independent pure-Python oracles written
from the property statement.  Every input is recorded so that a failure can be
replayed on the same tree:  python rt/run.py --replay FILE
"""
import json
import os
import sys
import time
import traceback
import zlib
import math
import warnings
import numpy as np

CASES = {}


class Fail(Exception):
    def __init__(self, msg, key=None):
        super().__init__(msg)
        self.key = key


class Skip(Exception):
    pass


def case(prop, weight=1, tier='quick', maxrounds=None):
    def deco(f):
        for p in ([prop] if isinstance(prop, str) else prop):
            CASES.setdefault(p, []).append((f.__name__, f, weight, tier, maxrounds))
        return f
    return deco


def describe(v, lim=4000):
    try:
        if hasattr(v, 'detach'):
            v = ('torch', v.detach().cpu().numpy())
            return describe(v, lim)
        if isinstance(v, np.ndarray):
            s = f'array(dtype={v.dtype}, shape={v.shape}, {v.tolist()!r})'
        else:
            s = repr(v)
        return s if len(s) <= lim else s[:lim] + '...'
    except Exception as e:
        return f'<{type(v).__name__}: {e}>'


class T:
    def __init__(self, prop, name, seed, rnd, tier):
        self.prop, self.name, self.seed, self.rnd, self.tier = prop, name, seed, rnd, tier
        h = zlib.crc32(f'{name}:{rnd}:{seed}'.encode())
        self.rng = np.random.default_rng(h)
        self.inputs = {}
        self.n = 0
        self.sigs = set()

    def inp(self, **kw):
        """record the inputs of the evaluation that follows"""
        self.inputs = {k: v for k, v in kw.items()}
        self.n += 1
        self.sigs.add(zlib.crc32(repr(sorted((k, describe(v, 2000)) for k, v in kw.items())).encode()))

    def ok(self, cond, msg, key=None):
        if not cond:
            raise Fail(msg, key)

    def close(self, a, b, msg, rtol=1e-7, atol=1e-8, key=None):
        a, b = tonp(a), tonp(b)
        if a.shape != b.shape:
            raise Fail(f'{msg}: shape {a.shape} != expected {b.shape}', key)
        if a.dtype.kind in 'OUS' or b.dtype.kind in 'OUS':
            good = np.array_equal(a, b)
        else:
            good = np.allclose(a, b, rtol=rtol, atol=atol, equal_nan=True)
        if not good:
            raise Fail(f'{msg}: got {describe(a, 600)}, expected {describe(b, 600)}', key)

    def same(self, a, b, msg, key=None):
        if a != b:
            raise Fail(f'{msg}: got {describe(a, 600)}, expected {describe(b, 600)}', key)

    def raises(self, exc, f, msg):
        try:
            r = f()
        except exc:
            return
        except Exception as e:
            raise Fail(f'{msg}: raised {type(e).__name__} instead of {exc}')
        raise Fail(f'{msg}: returned {describe(r, 300)} instead of raising')

    # ---------------------------------------------------------------- generators
    def integers(self, lo, hi):
        return int(self.rng.integers(lo, hi + 1))

    def choice(self, xs):
        return xs[int(self.rng.integers(len(xs)))]

    def coin(self, p=.5):
        return bool(self.rng.random() < p)

    def values(self, shape, kind=None):
        r = self.rng
        kind = kind or self.choice(['int', 'gauss', 'gauss', 'walk', 'const', 'big', 'half'])
        if kind == 'int':
            x = r.integers(-3, 4, size=shape).astype(float)
        elif kind == 'half':
            x = r.integers(-6, 7, size=shape) / 2.
        elif kind == 'gauss':
            x = r.normal(size=shape)
        elif kind == 'walk':
            x = np.cumsum(r.normal(size=shape), axis=0)
        elif kind == 'const':
            x = np.full(shape, float(r.integers(-3, 4)))
        else:
            x = 10 + 5 * r.normal(size=shape)
        return x

    def series(self, lo=1, hi=9, d=None, kind=None, sz=None):
        sz = self.integers(lo, hi) if sz is None else sz
        d = self.choice([1, 1, 2, 3]) if d is None else d
        return self.values((sz, d), kind)

    def layout(self, x):
        """same numbers, another memory layout / container"""
        k = self.choice(['c', 'c', 'f', 'strided', 'list', 'nanpad', 'ro', 'flat'])
        if k == 'f':
            return np.asfortranarray(x)
        if k == 'strided':
            y = np.full((x.shape[0] * 2, x.shape[1]), 99.)
            y[::2] = x
            return y[::2]
        if k == 'list':
            return x.tolist()
        if k == 'nanpad':
            return np.vstack([x, np.full((self.integers(1, 3), x.shape[1]), np.nan)])
        if k == 'ro':
            y = x.copy()
            y.setflags(write=False)
            return y
        if k == 'flat' and x.shape[1] == 1:
            return x[:, 0].copy()
        return x


def tonp(a):
    if hasattr(a, 'detach'):
        a = a.detach().cpu().numpy()
    return np.asarray(a)


def run(prop, names, seed, tier, budget, progress=None, minrounds=1, maxfail=3):
    t0 = time.time()
    cases = [c for c in CASES.get(prop, []) if (not names or c[0] in names) and (tier == 'thorough' or c[3] == 'quick')]
    res = dict(property=prop, evaluations=0, distinct=0, cases={}, failures=[], skipped=0, samples=[], rounds=0)
    sigs = set()
    failed = set()
    rnd = 0
    while True:
        ran = False
        for name, f, w, _, maxr in cases:
            if name in failed or (maxr is not None and rnd >= maxr):
                continue
            for rep in range(w if rnd else 1):
                if rnd >= minrounds and time.time() - t0 > budget:
                    break
                k = rnd * 1000 + rep
                t = T(prop, name, seed, k, tier)
                if progress:
                    with open(progress, 'w') as fh:
                        json.dump(dict(case=name, round=k, start=time.time()), fh)
                try:
                    ran = True
                    with warnings.catch_warnings():
                        warnings.simplefilter('ignore')
                        f(t)
                except Skip:
                    res['skipped'] += 1
                except Fail as e:
                    res['failures'].append(failure(t, e, e.key))
                    failed.add(name)
                except (KeyboardInterrupt, SystemExit):
                    raise
                except BaseException as e:
                    res['failures'].append(failure(t, e, None))
                    failed.add(name)
                if len(res['samples']) < 3 and t.inputs:
                    res['samples'].append(dict(case=name, **{k: describe(v, 300) for k, v in t.inputs.items()}))
                res['evaluations'] += max(t.n, 1)
                sigs |= {(name, s) for s in t.sigs}
                res['cases'][name] = res['cases'].get(name, 0) + max(t.n, 1)
                if failed and name in failed:
                    break
        rnd += 1
        if len(res['failures']) >= maxfail or not ran or time.time() - t0 > budget and rnd >= minrounds:
            break
    res['distinct'] = len(sigs)
    res['rounds'] = rnd
    res['wall_s'] = time.time() - t0
    if progress:
        try:
            os.unlink(progress)
        except OSError:
            pass
    return res


def failure(t, e, key):
    tb = traceback.format_exc()
    return dict(property=t.prop, case=t.name, seed=t.seed, round=t.rnd, tier=t.tier, key=key,
                error=f'{type(e).__name__}: {e}'[:4000], inputs={k: describe(v) for k, v in t.inputs.items()},
                traceback=tb[-3000:])
