"""Exact summaries of loops with symbolic bounds.

For a loop with iteration counter t in [lo,hi) the body is executed once, for an
arbitrary iteration.  Each carried scalar / list length / written array becomes a
*defined function*:

 last   value does not depend on its previous value:       L(k) = body value at k
 sum..  new = old (op) e(t), e independent of old:          prefix reduction
 once   array whose written cells are hit by one iteration only (the iteration is
        an integer-linear function u(idx) of the cell, checked by the solver):
        G(idx) = body value at t := u(idx), reads of cells written earlier are G
 rec    anything else: R(k) / R(k, idx), R(lo)=initial, R(k+1)=body(R(k))

All are exact (no approximation), whatever the order in which the cells are
visited; facts about them are proved by the contracts (induction), never assumed.
"""
import ast
import itertools
import z3
from .terms import *
from . import terms as T
from .fns import *


def _find_break(e):
    return e


class Pause(Exception):
    pass


class LoopSummary:
    def __init__(self, ex, lo, hi, elem, target, body, node, cond, brk):
        self.ex, self.lo, self.hi, self.elem, self.target = ex, lo, hi, elem, target
        self.body, self.node, self.cond, self.brk = body, node, cond, brk

    def lists(self, fr):
        """plain lists the body appends to become lists of symbolic length"""
        from .engine import PList, SList, Store, Cell, memo
        ex = self.ex
        for n in self.body if self.brk is None else self.brk[0] + [ast.Expr(self.brk[1])] + self.brk[2] + self.brk[3]:
            for x in ast.walk(n):
                if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr == 'append' and isinstance(x.func.value, ast.Name):
                    nm = x.func.value.id
                    v = fr.vars.get(nm)
                    if not isinstance(v, PList):
                        continue
                    if any(w is v for m, w in fr.vars.items() if m != nm):
                        raise Unsupported('aliased list')
                    st, c = Store('list_' + nm), Cell('len_' + nm)
                    its = [toX(q) if is_scalar(q) and any(isinstance(z, XR) for z in v.items) else q for q in v.items]
                    from .models import pick
                    ex.heap[st] = memo(lambda i, its=its: pick(its, i[0]) if its else BOT)
                    ex.cells[c] = len(its)
                    fr.vars[nm] = SList(st, c)

    def exec_body(self, t):
        """one arbitrary iteration; returns the break condition (or False)"""
        ex = self.ex
        if self.target is not None:
            ex.assign(self.target, self.elem(t))
        if self.cond is not None:
            ex.pc.append(truth(ex.ev(self.cond)))
        if self.brk is None:
            ex.block(self.body)
            return False
        pre, test, thn, post = self.brk
        ex.block(pre)
        c = truth(ex.ev(test))
        ex.pc.append(Not(c))
        ex.block(post)
        return c

    def run(self):
        ex = self.ex
        lo, hi = self.lo, self.hi
        fr = ex.frames[-1]
        self.lists(fr)
        outer_log = ex.idxlog
        base = ex.snap()
        t = z3.Int(f'it!{uid()}')
        from .engine import Poison, UNDEF, Cell, Store, Arr, SList, PList, _mentions, subst_any
        ctx = list(ex.itervars)
        carr, wst = {}, {}         # carrier key -> tpl ; store -> tpl
        poison = set()
        brkvar = None
        if self.brk is not None:
            brkvar = ex.mk('Nbrk', z3.IntSort())

        def keyval(k, snap):
            if k[0] == 'n':
                return snap[0].get(k[1], UNDEF)
            return snap[2].get(k[1], UNDEF)

        def setkey(k, v):
            if k[0] == 'n':
                ex.frames[-1].vars[k[1]] = v
            else:
                ex.cells[k[1]] = v

        def enter():
            ex.itervars.append(t)
            ex.loopdepth += 1
            ex.pc += [t >= zi(lo), t < zi(hi)]

        def leave():
            ex.loopdepth -= 1
            ex.itervars.pop()

        ctxg = ex.ctx_pc()
        nobl = len(ex.obls)
        lin = {}                   # carriers with a closed (affine) form
        # ---------------- pass 1: discover what the body modifies
        for it in range(14):
            ex.restore(base)
            ex.frames[-1] = fr
            ex.idxlog = []
            del ex.obls[nobl:]
            enter()
            ph = {}
            try:
                for k, tp in carr.items():
                    ph[k] = i_add(keyval(k, base), i_mul(lin[k], i_sub(t, lo))) if k in lin else ex.mkval('ph', tp)
                    setkey(k, ph[k])
                for k in poison:
                    setkey(k, Poison('value carried from a previous iteration of a loop'))
                phs = {}
                for st, tp in wst.items():
                    nd = getattr(st, 'nd')
                    P = VFn(f'ph_{st.name}', [v.sort() for v in ex.itervars] + [z3.IntSort()] * nd, tp)
                    iv = list(ex.itervars)
                    phs[st] = P
                    ex.heap[st] = memo_((lambda x, P=P, iv=iv: P(*iv, *[zi(i) for i in x])))
                ex.wr = {}
                bc = self.exec_body(t)
                snap1 = ex.snap()
            finally:
                leave()
            changed = False
            for name, v in snap1[0].items():
                k = ('n', name)
                b = base[0].get(name, UNDEF)
                if b is UNDEF or k in poison:
                    continue
                cur = ph.get(k, b)
                if v is cur or k in lin:
                    continue
                changed |= self.note(k, b, v, carr, poison)
            for ce, v in snap1[2].items():
                k = ('c', ce)
                b = base[2].get(ce, UNDEF)
                if b is UNDEF or k in poison:
                    continue
                cur = ph.get(k, b)
                if v is cur or k in lin:
                    continue
                changed |= self.note(k, b, v, carr, poison)
            for st in list(snap1[3]):
                if st not in base[1]:
                    continue          # array created inside the body
                nd = None
                for s2, ix in ex.idxlog:
                    if s2 is st:
                        nd = len(ix)
                st.nd = nd
                xs = [z3.Int(f'x{d}!{uid()}') for d in range(nd)]
                tp = tpl_join(tpl_of(snap1[1][st](tuple(xs))), tpl_of(base[1][st](tuple(xs))))
                if wst.get(st) != tp:
                    wst[st] = tp if st not in wst else tpl_join(wst[st], tp)
                    changed = True
            if not changed:
                # counters get their closed form before the arrays indexed by them are classified
                for k, tp in carr.items():
                    if tp == 'I' and k not in lin and is_int(keyval(k, base)) and not isinstance(keyval(k, snap1), Poison):
                        e = simp_int(zi(keyval(k, snap1)) - zi(ph[k]))
                        if isinstance(e, int):
                            lin[k] = e
                            changed = True
            if not changed:
                break
        else:
            raise Unsupported('loop: no stable set of modified variables')
        log1 = ex.idxlog

        # placeholders occurring in a term
        phids = {}
        for k, v in ph.items():
            for l in leaves(v, carr[k]) if k not in lin else ():
                phids[(l.decl().name() if z3.is_app(l) else str(l))] = k
        phfn = {}
        for st, P in phs.items():
            for f in P.fns:
                phfn[f.name] = st

        def deps(terms):
            out = set()
            seen = set()
            stk = [zb(x) if isinstance(x, bool) else x for x in terms]
            while stk:
                e = stk.pop()
                if e.get_id() in seen:
                    continue
                seen.add(e.get_id())
                if z3.is_app(e) and e.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                    nm = e.decl().name()
                    if nm in phids:
                        out.add(phids[nm])
                    elif nm in phfn:
                        out.add(phfn[nm])
                stk.extend(e.children())
            return out

        # ---------------- classification
        cls = {}
        for k, tp in carr.items():
            new = keyval(k, snap1)
            cls[k] = ('lin', lin[k]) if k in lin else self.classify_scalar(k, ph[k], new, tp, deps, ex, base, lo, hi, t)
        scl = {}
        for st, tp in wst.items():
            scl[st] = self.classify_store(st, tp, snap1, log1, phs[st], deps, base, lo, hi, t, ctx)

        # ---------------- pass 2
        fns = {}
        ctxs = [v.sort() for v in ctx]
        for k, tp in carr.items():
            c = cls[k]
            if c[0] in ('last', 'rec'):
                fns[k] = VFn(f'{c[0]}_{k[1] if k[0] == "n" else getattr(k[1], "name", "c")}', ctxs + [z3.IntSort()], tp)
            elif c[0] == 'lin':
                pass
            else:
                fns[k] = Reduce(c[0], ctx, lo, t, None, None, c[2], cast(keyval(k, base), tp), tp, True)
        for st, tp in wst.items():
            c = scl[st]
            nd = st.nd
            if c[0] == 'once':
                fns[st] = VFn(f'G_{st.name}', ctxs + [z3.IntSort()] * nd, tp)
            elif c[0] == 'accum':
                xs = c[1]
                fns[st] = Reduce('sum', ctx + list(xs), lo, t, None, None, add, None, tp, True)
            else:
                fns[st] = VFn(f'R_{st.name}', ctxs + [z3.IntSort()] * (nd + 1), tp)

        def at(k, tt, ctxv=None):
            """value of carrier k at the start of iteration tt"""
            c = cls[k]
            b = keyval(k, base)
            cv = ctx
            if c[0] == 'lin':
                return i_add(b, i_mul(c[1], i_sub(tt, lo)))
            if c[0] == 'last':
                return ite(lt(lo, tt), fns[k](*cv, zi(i_sub(tt, 1))), cast(b, carr[k]))
            return fns[k](*cv, zi(tt))

        def at_store(st, tt):
            c = scl[st]
            f0 = base[1][st]
            if c[0] == 'once':
                u, dom = c[1], c[2]

                def f(x):
                    uu = u(x)
                    d = And(dom(x), lt(uu, tt))
                    if ex.decide(d) is False:
                        return f0(x)
                    if ex.decide(d) is True:
                        return fns[st](*ctx, *[zi(i) for i in x])
                    return ite(d, fns[st](*ctx, *[zi(i) for i in x]), f0(x))
                return memo_(f)
            if c[0] == 'accum':
                return memo_(lambda x: fns[st](*ctx, *[zi(i) for i in x], zi(tt)))
            return memo_(lambda x: fns[st](*ctx, zi(tt), *[zi(i) for i in x]))

        ex.restore(base)
        ex.idxlog = []
        del ex.obls[nobl:]
        enter()
        try:
            for k in carr:
                setkey(k, at(k, t))
            for k in poison:
                setkey(k, Poison('value carried from a previous iteration of a loop'))
            for st in wst:
                ex.heap[st] = at_store(st, t)
            ex.wr = {}
            npc0 = len(ex.pc)
            bc = self.exec_body(t)
            snap2 = ex.snap()
            pcdef = And(ex.ctx_pc())
            heap2 = snap2[1]
            # evaluate array values at formal indices inside the loop context
            svals = {}
            for st, tp in wst.items():
                xs = [z3.Int(f'x{d}!{uid()}') for d in range(st.nd)]
                val = cast(heap2[st](tuple(xs)), tp)
                svals[st] = (xs, val)
        finally:
            leave()
        rest = ex.pc[base[4]:]
        cfml = (t, And(*rest[2:3])) if self.cond is not None else None    # loop condition at iteration t
        # guard: enclosing iterations are in their domains, this iteration is executed
        guard = And(ctxg, t >= zi(lo), t < (zi(brkvar) if self.brk is not None else zi(hi)))
        assum = And(*rest[2:])          # facts that hold in every executed iteration
        # ---------------- defining equations
        for k, tp in carr.items():
            c = cls[k]
            new = keyval(k, snap2)
            if c[0] == 'lin':
                continue
            new = cast(new, tp)
            if isinstance(tp, tuple) and tp[0] == 'X' or True:
                nl = leaves(new, tp)
            b = cast(keyval(k, base), tp)
            F = fns[k]
            if c[0] == 'last':
                def unf(*a, F=F, nl=nl, tp=tp):
                    subs = list(zip(ctx + [t], a))
                    g = z3.substitute(zb(guard), *subs)
                    rhs = [z3.substitute(x, *subs) for x in nl]
                    return [Implies(g, And(z3.substitute(zb(assum), *subs), *[p == q for p, q in zip(leaves(F(*a), tp), rhs)]))]
                F.unfold = unf
            elif c[0] == 'rec':
                def unf(*a, F=F, nl=nl, tp=tp, b=b):
                    cv, n = list(a[:-1]), a[-1]
                    subs0 = list(zip(ctx, cv))
                    lo_ = z3.substitute(zi(lo), *subs0) if subs0 else zi(lo)
                    bl = [z3.substitute(x, *subs0) if subs0 else x for x in leaves(b, tp)]
                    n1 = z3.simplify(n - 1)
                    subs = list(zip(ctx + [t], cv + [n1]))
                    g = z3.substitute(zb(guard), *subs)
                    rhs = [z3.substitute(x, *subs) for x in nl]
                    me = leaves(F(*a), tp)
                    return [Implies(n <= lo_, And(*[p == q for p, q in zip(me, bl)])),
                            Implies(And(n > lo_, g), And(z3.substitute(zb(assum), *subs), *[p == q for p, q in zip(me, rhs)]))]
                F.unfold = unf
            else:
                # prefix reduction: recover the increment
                cur = at(k, t)
                e = self.increment(c[0], new, cur, tp, ex)
                if e is None:
                    raise Unsupported('reduction increment changed between passes')
                F.bodyv = e
                F.pcf, F.hi = ctxg, (zi(brkvar) if self.brk is not None else zi(hi))
        for st, tp in wst.items():
            c = scl[st]
            xs, val = svals[st]
            F = fns[st]
            vl = leaves(val, tp)
            if c[0] == 'once':
                u, dom = c[1], c[2]

                def unf(*a, F=F, vl=vl, xs=xs, tp=tp, u=u, dom=dom):
                    cv, ix = list(a[:len(ctx)]), list(a[len(ctx):])
                    subs0 = list(zip(ctx, cv))
                    d = zb(dom(tuple(ix)))
                    uu = zi(u(tuple(ix)))
                    if subs0:
                        d, uu = z3.substitute(d, *subs0), z3.substitute(uu, *subs0)
                    uu = z3.simplify(uu)
                    subs = list(zip(ctx + [t] + xs, cv + [uu] + ix))
                    g = z3.substitute(zb(guard), *subs)
                    rhs = [z3.substitute(x, *subs) for x in vl]
                    return [Implies(And(d, g), And(z3.substitute(zb(assum), *subs), *[p == q for p, q in zip(leaves(F(*a), tp), rhs)]))]
                F.unfold = unf
            elif c[0] == 'accum':
                f0 = base[1][st]
                cur = fns[st](*ctx, *xs, t)
                e = self.increment('sum', val, cur, tp, ex)
                if e is None:
                    raise Unsupported('accumulation increment')
                oldxs = c[1]
                e = subst_any(e, list(zip(xs, oldxs)))
                F.bodyv = e
                F.pcf, F.hi = ctxg, (zi(brkvar) if self.brk is not None else zi(hi))
                F.init = cast(f0(tuple(oldxs)), tp)
            else:
                f0 = base[1][st]

                def unf(*a, F=F, vl=vl, xs=xs, tp=tp, f0=f0):
                    nc = len(ctx)
                    cv, n, ix = list(a[:nc]), a[nc], list(a[nc + 1:])
                    subs0 = list(zip(ctx, cv))
                    lo_ = z3.substitute(zi(lo), *subs0) if subs0 else zi(lo)
                    ini = leaves(cast(f0(tuple(ix)), tp), tp)
                    if subs0:
                        ini = [z3.substitute(x, *subs0) for x in ini]
                    n1 = z3.simplify(n - 1)
                    subs = list(zip(ctx + [t] + xs, cv + [n1] + ix))
                    g = z3.substitute(zb(guard), *subs)
                    rhs = [z3.substitute(x, *subs) for x in vl]
                    me = leaves(F(*a), tp)
                    return [Implies(n <= lo_, And(*[p == q for p, q in zip(me, ini)])),
                            Implies(And(n > lo_, g), And(z3.substitute(zb(assum), *subs), *[p == q for p, q in zip(me, rhs)]))]
                F.unfold = unf

        # ---------------- bounds of integer carriers, proved by induction (Houdini)
        bound = zi(brkvar) if self.brk is not None else zi(hi)
        for k, tp in carr.items():
            if cls[k][0] == 'rec' and int_tpl(tp):
                self.houdini(fns[k], tp, ctx, ctxg, zi(lo), bound, leaves(cast(keyval(k, base), tp), tp), False)
        for st, tp in wst.items():
            if scl[st][0] == 'once' and st.nd == 1 and int_tpl(tp):
                u = scl[st][1]
                x0 = z3.Int('x#')
                off = z3.simplify(zi(u((x0,))) - x0)
                if z3.is_int_value(off):
                    first = z3.simplify(zi(lo) - off)
                    try:
                        ini = leaves(cast(base[1][st]((z3.simplify(first - 1),)), tp), tp)
                    except Unsupported:
                        continue
                    self.houdini(fns[st], tp, ctx, ctxg, first, z3.simplify(bound - off), ini, True)
        # ---------------- state after the loop
        vars2 = snap2[0]
        ex.restore(base)
        end = hi
        if self.brk is not None:
            end = brkvar
        if not isinstance(end, int) and self.brk is None and self.cond is None:
            # number of executed iterations is max(lo,hi)
            if ex.decide(le(lo, hi)) is not True:
                end = z3.If(zi(hi) >= zi(lo), zi(hi), zi(lo))
        elif isinstance(end, int) and isinstance(lo, int):
            end = max(end, lo)
        bcterm = zb(bc) if self.brk is not None else None
        if self.brk is not None:
            hi_ = zi(hi)
            ex.facts += [Implies(zi(lo) <= hi_, And(brkvar >= zi(lo), brkvar <= hi_)),
                         Implies(zi(lo) > hi_, brkvar == zi(lo))]
            B = Reduce('or', ctx, lo, t, bcterm, None, lambda a, b: Or(a, b), z3.BoolVal(False), 'B', ctxg)
            # at the first break index the condition holds, before it never does
            subs = [(t, zi(brkvar))]
            ex.facts += [Implies(brkvar < hi_, z3.substitute(bcterm, *subs)),
                         zb(Not(B(*ctx, zi(brkvar)))), Implies(brkvar < hi_, B(*ctx, hi_)),
                         Implies(brkvar >= hi_, zb(Not(B(*ctx, hi_))))]
        for k in carr:
            v = at(k, end)
            if isinstance(fns.get(k), Reduce):
                F = fns[k]
                v = ex.canon_reduce(F.kind, t, F.bodyv, lo, F.init, F.tpl, F.op)(zi(end))
            setkey(k, v)
        for k in poison:
            setkey(k, Poison('loop temporary used after the loop'))
        # names first bound inside the loop
        for name, v in vars2.items():
            if name not in base[0]:
                if is_scalar(v) and self.brk is None and not isinstance(v, Poison):
                    try:
                        vv = subst_any(v, [(t, zi(i_sub(end, 1)))]) if not isinstance(v, (int, bool, float)) else v
                        if isinstance(lo, int) and ex.decide(lt(lo, end)) is not True:
                            vv = Poison('loop variable of a possibly empty loop')
                    except Unsupported:
                        vv = Poison('loop local')
                    ex.frames[-1].vars[name] = vv
                else:
                    ex.frames[-1].vars[name] = Poison('loop local used after the loop')
        for st in wst:
            c = scl[st]
            f0 = base[1][st]
            if c[0] == 'once':
                u, dom = c[1], c[2]

                def fin(x, st=st, u=u, dom=dom, f0=f0):
                    d = dom(x)
                    if self.brk is not None or self.cond is not None:
                        d = And(d, lt(u(x), end))
                    dd = ex_decide(ex, d)
                    if dd is True:
                        return fns[st](*ctx, *[zi(i) for i in x])
                    if dd is False:
                        return f0(x)
                    return ite(d, fns[st](*ctx, *[zi(i) for i in x]), f0(x))
                ex.heap[st] = memo_(fin)
                region = dom
            elif c[0] == 'accum':
                ex.heap[st] = memo_(lambda x, st=st: fns[st](*ctx, *[zi(i) for i in x], zi(end)))
                region = lambda x: True
            else:
                ex.heap[st] = memo_(lambda x, st=st: fns[st](*ctx, zi(end), *[zi(i) for i in x]))
                region = lambda x: True
            ow = ex.wr.get(st)
            ex.wr[st] = (lambda x, ow=ow, r=region: Or(ow(x), r(x))) if ow else region
        ex.idxlog = outer_log + [(s, ix) for s, ix in ex.idxlog if s in base[1]]
        if self.cond is not None:
            # condition true before N iterations, false at N
            n0 = len(ex.pc)
            cN = truth(ex.ev(self.cond))
            ex.pc.append(Not(cN))
            ex.whiles.append(dict(N=hi, cond=cfml, ctx=ctx, t=t, carr={k: (cls[k][0], fns.get(k)) for k in carr},
                                  stores={s: (scl[s][0], fns[s]) for s in wst}, 
                                  line=self.node.lineno))
        if self.brk is not None:
            pre, test, thn, post = self.brk
            if pre or thn or True:
                # partial last iteration (executed only when the loop was left by break)
                did = brkvar < zi(hi)
                d = ex.decide(did)
                if d is not False and (pre or thn):
                    b2 = ex.snap()
                    ex.pc.append(did)
                    if self.target is not None:
                        ex.assign(self.target, self.elem(brkvar))
                    ex.block(pre)
                    ex.block(thn)
                    s1 = ex.snap()
                    ex.restore(b2)
                    s2 = ex.snap()
                    ex.merge(did, s1, s2, b2)

    # ------------------------------------------------------------------
    def houdini(self, F, tp, ctx, ctxg, lo, hi, init, once):
        """candidate invariants (>= 0, <= initial, >= initial) of an integer carrier; the inductive subset is
        proved and instantiated at every application of F"""
        ex = self.ex
        n = len(init)
        cands = [(i, c) for i in range(n) for c in ('ge0', 'le', 'ge')]

        def fml(c, ls, ini):
            i, k = c
            return ls[i] >= 0 if k == 'ge0' else (ls[i] <= ini[i] if k == 'le' else ls[i] >= ini[i])
        hyps = [h for h in ex.pc + ex.facts]
        first = lo if once else lo + 1
        x = z3.Int(f'k!{uid()}')
        dom = [ctxg, x >= first, x < hi if once else x <= hi]
        cands = [c for c in cands if c[1] != 'ge0' or prove(hyps + [ctxg], init[c[0]] >= 0, rounds=1, timeout=500, use_cvc5=False).status == 'unsat']
        me = leaves(F(*ctx, x), tp)
        prev = leaves(F(*ctx, z3.simplify(x - 1)), tp)
        if once:
            prev_ = [z3.If(x - 1 >= first, p, i) for p, i in zip(prev, init)]
        else:
            prev_ = prev
        while cands:
            h = hyps + dom + [fml(c, prev_, init) for c in cands]
            bad = [c for c in cands if prove(h, fml(c, me, init), rounds=2, timeout=800, use_cvc5=False).status != 'unsat']
            if not bad:
                break
            cands = [c for c in cands if c not in bad]
        if not cands:
            return
        old = F.unfold
        inv = And(*[fml(c, me, init) for c in cands])
        g = And(ctxg, x >= lo, x < hi if once else x <= hi)
        body = zb(Implies(g, inv))

        def unf(*a):
            return list(old(*a)) + [z3.substitute(body, *zip(list(ctx) + [x], a))]
        F.unfold = unf
        F._cache = {}

    def note(self, k, b, v, carr, poison):
        from .engine import Poison
        if isinstance(v, Poison) or isinstance(b, Poison):
            poison.add(k)
            return True
        try:
            tp = tpl_join(tpl_of(b), tpl_of(v))
        except Unsupported:
            poison.add(k)
            carr.pop(k, None)
            return True
        if k in carr:
            tp = tpl_join(carr[k], tp)
            if tp == carr[k]:
                return False
        carr[k] = tp
        return True

    def classify_scalar(self, k, ph, new, tp, deps, ex, base, lo, hi, t):
        from .engine import Poison
        if isinstance(new, Poison):
            raise Unsupported(new.why)
        new = cast(new, tp)
        d = deps(leaves(new, tp))
        if k not in d:
            return ('last',)
        if tp == 'I':
            e = simp_int(zi(new) - zi(ph))
            if isinstance(e, int):
                return ('lin', e)
        for kind in (('sum', 'min', 'max') if tp == 'I' or (isinstance(tp, tuple) and tp[0] == 'X') else
                     (('or', 'and') if tp == 'B' else ())):
            e = self.increment(kind, new, ph, tp, ex)
            if e is not None and k not in deps(leaves(e, tp)):
                ops = {'sum': add, 'min': minimum, 'max': maximum, 'or': lambda a, b: Or(a, b), 'and': lambda a, b: And(a, b)}
                return (kind, None, ops[kind])
        return ('rec',)

    def increment(self, kind, new, cur, tp, ex):
        """e with new == cur (op) e, or None"""
        try:
            nl, cl = leaves(new, tp), leaves(cur, tp)
        except Unsupported:
            return None
        if isinstance(tp, tuple) and tp[0] == 'T':
            return None
        ids = [c for c in cl]

        def setcur(vals):
            return [z3.simplify(z3.substitute(x, *[(c, v) for c, v in zip(ids, vals)])) for x in nl]
        if not all(z3.is_app(c) and (c.num_args() > 0 or z3.is_const(c)) for c in cl):
            return None
        if kind == 'sum':
            if tp == 'I':
                e = setcur([z3.IntVal(0)])
                ev = e[0]
                if valid(zi(new) == cl[0] + ev):
                    return ev
                return None
            if tp[1] or tp[2] or tp[3]:
                return None
            e = setcur([rv(0)])
            if valid(nl[0] == cl[0] + e[0]):
                return XR(e[0])
            return None
        if kind in ('min', 'max'):
            if tp == 'I' or tp[1] or tp[2] or tp[3]:
                # find e: new = min(cur, e)
                return None
            return None
        if kind == 'or':
            e = setcur([z3.BoolVal(False)])
            if valid(nl[0] == z3.Or(cl[0], e[0])):
                return e[0]
        if kind == 'and':
            e = setcur([z3.BoolVal(True)])
            if valid(nl[0] == z3.And(cl[0], e[0])):
                return e[0]
        return None

    def classify_store(self, st, tp, snap1, log, P, deps, base, lo, hi, t, ctx):
        ex = self.ex
        from .engine import _mentions
        nd = st.nd
        ixs = [ix for s, ix in log if s is st]
        # ---- once?
        cand = None
        data_dep = bool(deps([zi(i) for ix in ixs for i in ix]))
        if not data_dep and all(len(ix) == nd for ix in ixs):
            coefs = [c for c in itertools.product((0, 1, -1), repeat=nd) if any(c)]
            coefs.sort(key=lambda c: (sum(map(abs, c)), c.count(-1)))
            # log entries can mention inner iteration variables: only t matters
            for c in coefs:
                off = None
                ok = True
                for ix in ixs:
                    lin = z3.simplify(sum([ci * zi(i) for ci, i in zip(c, ix)]))
                    o = z3.simplify(lin - t)
                    inner = self.free_iters(o, t, ctx)
                    if inner:
                        ok = False
                        break
                    if off is None:
                        off = o
                    elif not off.eq(o):
                        if not valid(off == o):
                            ok = False
                            break
                if ok and off is not None:
                    cand = (c, off)
                    break
        region = snap1[3][st]
        if cand is not None:
            c, off = cand

            def u(x):
                return simp_int(sum([ci * zi(i) for ci, i in zip(c, x) if ci]) - off)

            # the region must not mention inner iteration variables or placeholders
            xs = tuple(z3.Int(f'x{d}!{uid()}') for d in range(nd))
            rt = zb(region(xs))

            def dom(x):
                uu = u(x)
                # simultaneous substitution: x may itself mention t
                r = z3.simplify(z3.substitute(rt, (t, zi(uu)), *[(p, zi(q)) for p, q in zip(xs, x)]))
                return And(le(lo, uu), lt(uu, hi), r)
            if not deps([rt]) and not self.free_iters(rt, t, ctx):
                return ('once', u, dom)
        # ---- accumulation into cells that do not depend on t
        if isinstance(tp, tuple) and tp[0] == 'X' and not any(tp[1:4]):
            xs = tuple(z3.Int(f'x{d}!{uid()}') for d in range(nd))
            val = cast(snap1[1][st](xs), tp)
            cur = P(*ex.itervars, t, *xs)
            e = self.increment('sum', val, cur, tp, ex)
            if e is not None and not deps(leaves(e, tp)):
                return ('accum', xs)
        return ('rec',)

    def free_iters(self, e, t, ctx):
        """iteration variables of inner (finished) loops occurring in e"""
        ok = {t.get_id()} | {c.get_id() for c in ctx}
        out = []
        seen = set()
        st = [e]
        while st:
            x = st.pop()
            if x.get_id() in seen:
                continue
            seen.add(x.get_id())
            if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.decl().name().split('!')[0] in ('it', 'v', 'k', 't') \
                    and x.get_id() not in ok:
                out.append(x)
            st.extend(x.children())
        return out


def ex_decide(ex, d):
    return ex.decide(d)


def int_tpl(tp):
    return tp == 'I' or (isinstance(tp, tuple) and tp[0] == 'T' and all(int_tpl(x) for x in tp[1]))


def valid(f):
    s = z3.Solver()
    s.set('timeout', 500)
    s.add(z3.Not(f))
    return s.check() == z3.unsat


def memo_(f):
    from .engine import memo
    return memo(f)
