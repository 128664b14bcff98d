"""Contracts and the per-function verification driver."""
import time
import traceback
import z3
from .terms import *
from . import terms as T
from .fns import *
from . import fns as F_
from .engine import *
from . import engine as E
from . import models


class Raises:
    """the function raises `name` exactly when cond holds (may=True: it may raise, unspecified when)"""

    def __init__(self, cond, name, may=False):
        self.cond, self.name, self.may = cond, name, may


class Contract:
    """Specification of one function of /repo.

    params(ex, variant)  -> dict of symbolic arguments, adds the precondition to ex.pc
    spec(ex, vars)       -> the value the function must return (exact functional specification)
    requires(ex, vars)   -> [(label, formula)] checked at call sites
    """
    qual = None
    variants = (None,)
    frame = True            # arguments are not modified
    external = {}           # extra externals during the proof of this function
    rounds = 5
    timeout = 10000
    div0 = False
    bounds = True
    contracts = None        # names of callee contracts used (None: all registered)
    title = ''

    def params(self, ex, variant):
        raise NotImplementedError

    def requires(self, ex, vars):
        return []

    def spec(self, ex, vars):
        raise NotImplementedError

    def raises(self, ex, vars):
        return []

    def apply(self, ex, vars):
        for lab, f in self.requires(ex, vars):
            ex.oblige(f'precondition of {self.qual.split(".")[-1]}: {lab}', f, kind='pre')
        for r in self.raises(ex, vars):
            if r.may:
                # partial correctness: only the normal return of the callee is followed further
                continue
            d = ex.decide(r.cond)
            if d is True:
                raise PyRaise(r.name)
            if d is None:
                if ex.loopdepth:
                    raise Unsupported('callee may raise inside a loop')
                if ex.choose(r.cond):
                    raise PyRaise(r.name)
        r = self.spec(ex, vars)
        for k in getattr(self, 'modifies', ()):
            v = vars.get(k)
            if isinstance(v, Arr):
                if getattr(v.store, 'frozen', None):
                    ex.oblige(f'frame: writes to {v.store.frozen}', False, kind='frame')
                if ex.loopdepth:
                    raise Unsupported('callee modifies its argument inside a loop')
                h = VFn(f'havoc_{k}', [z3.IntSort()] * (v.ndim if v.vmap is None else 8), ('X', True, True, True))
                if v.vmap is not None:
                    raise Unsupported('callee modifies a view')
                ex.heap[v.store] = lambda i: h(*[zi(x) for x in i])
        return r

    def resolve(self, ex):
        """function value of the current source"""
        mod, _, fn = self.qual.rpartition('.')
        m = Module.get(mod)
        if m is None:
            # nested: module.outer.inner
            raise Unsupported(f'{self.qual} not found')
        return ex.module_get(m, fn)

    # hook: arrays equal?
    def obligations(self, ex, res, vars):
        """list of Obligation for one normal path"""
        sp = self.spec(ex, vars)
        return equal_obls(ex, res, sp, self)

    def call(self, ex, f, vars):
        return ex.call_func(f, (), vars, force_inline=True)


def equal_obls(ex, res, sp, c, label='result'):
    out = []
    if isinstance(sp, Arr):
        if isinstance(res, (PList, SList)):
            res = models.to_array(ex, res)
        if not isinstance(res, Arr):
            return [Obligation(f'{label}: is an array', ex.pc + ex.facts, False, kind='post')]
        if res.ndim != sp.ndim:
            return [Obligation(f'{label}: number of dimensions', ex.pc + ex.facts, False, kind='post')]
        for d, (a, b) in enumerate(zip(res.shape, sp.shape)):
            out.append(Obligation(f'{label}: shape[{d}]', ex.pc + ex.facts, eq(a, b), kind='post'))
        vs = [z3.Int(f'i{d}!{uid()}') for d in range(sp.ndim)]
        dom = And(*[And(v >= 0, v < zi(n)) for v, n in zip(vs, sp.shape)])
        npc = len(ex.pc)
        ex.pc.append(dom)
        a, b = ex.rd(res, tuple(vs)), ex.rd(sp, tuple(vs))
        g = same(a, b)
        trig = []
        if sp.ind is not None:
            fn, back, measure = sp.ind
            me = measure(tuple(vs))
            nctx = len(fn.ctx)

            pc0, h0 = ex.pc[:npc], dict(ex.heap)
            pc0 = list(pc0) + [dom]

            def ih(*args):
                if any(not x.eq(y) for x, y in zip(args[:nctx], fn.ctx)):
                    return None
                w = back(*args[nctx:])
                d2 = And(*[And(le(0, v), lt(v, n)) for v, n in zip(w, sp.shape)])
                # cell values are evaluated under the obligation's own path condition
                sav, ex.pc = ex.pc, pc0 + [zb(d2)]
                heap, ex.heap = ex.heap, h0
                try:
                    eqn = same(ex.rd(res, w), ex.rd(sp, w))
                finally:
                    ex.pc, ex.heap = sav, heap
                return Implies(And(d2, lt(measure(w), me), le(0, measure(w))), eqn)
            trig.append((fn.F, ih))
            out.append(Obligation(f'{label}: induction measure is non-negative', ex.pc + ex.facts, le(0, me), kind='post'))
        out.append(Obligation(f'{label}: every cell equals its specification', ex.pc + ex.facts, g, trig, kind='post',
                              rounds=c.rounds, timeout=c.timeout))
        del ex.pc[npc:]
        return out
    if isinstance(sp, tuple):
        if isinstance(res, PList):
            res = tuple(res.items)
        if not isinstance(res, tuple) or len(res) != len(sp):
            return [Obligation(f'{label}: is a {len(sp)}-tuple', ex.pc + ex.facts, False, kind='post')]
        for i, (a, b) in enumerate(zip(res, sp)):
            if b is ANY:
                continue
            out += equal_obls(ex, a, b, c, f'{label}[{i}]')
        return out
    if sp is ANY:
        return []
    if isinstance(res, Arr) and is_scalar(sp) and res.ndim == 0:
        res = ex.rd(res, ())
    if is_scalar(sp) and not is_scalar(res):
        return [Obligation(f'{label}: is a number', ex.pc + ex.facts, False, kind='post')]
    try:
        f = same(res, sp)
    except Unsupported:
        f = False
    return [Obligation(label + ' equals its specification', ex.pc + ex.facts, f, kind='post', rounds=c.rounds, timeout=c.timeout)]


ANY = object()


class Report:
    def __init__(self, qual, variant):
        self.qual, self.variant = qual, variant
        self.obls = []
        self.status = 'undecided'
        self.reason = ''
        self.paths = 0
        self.dt = 0
        self.inlined = {}
        self.used = {}

    def row(self):
        return dict(function=self.qual, variant=str(self.variant) if self.variant is not None else '', status=self.status,
                    reason=self.reason, obligations=len(self.obls),
                    discharged=sum(1 for o in self.obls if o.result is not None and o.result.status == 'unsat'),
                    cvc5=sum(1 for o in self.obls if o.result is not None and o.result.backend == 'cvc5'),
                    failed=[dict(label=o.label, kind=o.kind, status=o.result.status, reason=o.result.reason,
                                 model=model_str(o.result.model)) for o in self.obls if o.result is not None and o.result.status != 'unsat'],
                    paths=self.paths, wall_s=round(self.dt, 3), inlined=sorted(self.inlined), contracts_used=sorted(self.used))


def model_str(m):
    if m is None:
        return None
    try:
        return {str(d): str(m[d])[:300] for d in m.decls()[:60] if '!' not in str(d) or d.arity() == 0}
    except Exception:
        return None


def solve(o):
    if o.result is None:
        f = T._norm(o.formula)
        if f is True:
            o.result = Result('unsat', backend='trivial')
        else:
            o.result = prove(o.pc, zb(f), o.triggers, rounds=o.rounds, timeout=o.timeout, opaque=o.opaque)
    return o.result


def verify(c, registry, externals, variant=None):
    t0 = time.time()
    r = Report(c.qual, variant)
    reg = dict(registry)
    if c.contracts is not None:
        reg = {k: v for k, v in reg.items() if k in c.contracts}
    ex = Ex(contracts=reg, externals={**externals, **c.external}, check_bounds=c.bounds, div0=c.div0)
    ex.active = c.qual
    for m in Module.cache.values():
        m.vals = {}
    try:
        ncover = [0]

        def run():
            ex.frames = [Frame({}, None, Module.get('tslearn'))]
            vars = c.params(ex, variant)
            npc = len(ex.pc)
            # vacuity guard: the precondition must be satisfiable
            s = z3.Solver()
            s.set('timeout', 5000)
            for f in ex.pc + ex.facts:
                s.add(zb(f))
            if s.check() == z3.unsat:
                raise Unsupported('contradictory precondition (vacuous contract)')
            if c.frame:
                for k, v in vars.items():
                    if isinstance(v, Arr) and k not in getattr(c, 'modifies', ()):
                        v.store.frozen = k
            f = c.resolve(ex)
            if not isinstance(f, FuncVal):
                raise Unsupported(f'{c.qual} is not a function')
            pre_state = (dict(ex.heap), dict(ex.cells))
            base_obls = len(ex.obls)
            rs = c.raises(ex, vars)
            try:
                res = c.call(ex, f, vars)
                outcome = None
            except PyRaise as e:
                outcome = e
                res = None
            nobl = []
            for v in vars.values():
                if isinstance(v, Arr) and getattr(v.store, 'frozen', None):
                    v.store.frozen = None
            if outcome is not None:
                conds = [x.cond for x in rs if x.name == outcome.name]
                nobl.append(Obligation(f'raises {outcome.name} only when specified', ex.pc + ex.facts, Or(*conds), kind='raises'))
            else:
                for x in rs:
                    if x.may:
                        continue
                    nobl.append(Obligation(f'{x.name} is raised when specified', ex.pc + ex.facts, Not(x.cond), kind='raises'))
                nobl += c.obligations(ex, res, vars)
                ncover[0] += 1
            ex.obls += nobl
            return outcome
        ps = ex.paths(run)
        r.paths = len(ps)
        r.obls = ex.obls
        if ncover[0] == 0 and not getattr(c, 'only_raises', False):
            raise Unsupported('no normal path (vacuous)')
        if not r.obls:
            raise Unsupported('no obligation generated')
        for o in r.obls:
            solve(o)
        sts = [o.result.status for o in r.obls]
        if all(s == 'unsat' for s in sts):
            r.status = 'proved'
        elif any(s == 'sat' for s in sts):
            r.status = 'failed'
        else:
            r.status = 'undecided'
            r.reason = 'solver returned unknown'
    except Unsupported as e:
        r.obls = ex.obls
        r.status, r.reason = 'unsupported', str(e)
    except (z3.Z3Exception, RecursionError, KeyError, IndexError, TypeError, AttributeError, ValueError, AssertionError) as e:
        r.obls = []
        r.status = 'unsupported'
        r.reason = 'engine: ' + repr(e) + ' ' + traceback.format_exc()[-700:]
    r.inlined, r.used = ex.inlined, ex.used_contracts
    r.dt = time.time() - t0
    return r


class Lemma:
    """statement about specification functions only, proved by the same back ends"""

    def __init__(self, name, build, rounds=4, timeout=10000):
        self.name, self.build, self.rounds, self.timeout = name, build, rounds, timeout

    def check(self):
        r = Report('lemma ' + self.name, None)
        t0 = time.time()
        ex = Ex()
        ex.frames = [Frame({}, None, Module.get('tslearn'))]
        try:
            obls = self.build(ex)
            for o in obls:
                if o.rounds == 4:
                    o.rounds = self.rounds
                o.timeout = self.timeout
                solve(o)
            r.obls = obls
            # vacuity: hypotheses consistent
            for o in obls:
                s = z3.Solver()
                s.set('timeout', 3000)
                for h in o.pc:
                    s.add(zb(h))
                if s.check() == z3.unsat:
                    raise Unsupported('contradictory hypotheses in ' + o.label)
            sts = [o.result.status for o in obls]
            r.status = 'proved' if obls and all(s == 'unsat' for s in sts) else ('failed' if 'sat' in sts else 'undecided')
        except (Unsupported, z3.Z3Exception) as e:
            r.status, r.reason = 'unsupported', str(e)
        r.dt = time.time() - t0
        return r
