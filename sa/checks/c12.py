"""C12: what the caller is asked to keep, and what the chunkers hold."""
from .. import algo, prove, model, feasible, evalt, terms as tm, theory as th, machine as M
from . import c03
from ..interp import paths
from ..terms import bnot, band, bor, TRUE, FALSE, ite, is_const
from ..machine import n_, C


def window(c):
    return {'bup': lambda: c.args[0], 'gzip': lambda: c.args[0], 'buzt': lambda: c.args[-3], 'buzb': lambda: c.args[-3], 'buzs': lambda: c.args[-3],
            'zstd': lambda: C(32)}.get(c.alg, lambda: C(0))()


def check(rep):
    rep.rule = ('the number of examined bytes the search asks to keep is, inductively, a closed form of the position that is bounded by the window; '
                'every look-back of the search lies within it; allocations of the incremental chunkers are bounded by the window and no path grows one')
    for it in algo.every(kinds=['fce']):
        nm = it.name + ': bytes to keep'
        if it.err:
            rep.undecided(nm, it.err, it.where)
            continue
        A, R, mc, w = it.A, it.R, it.mc, window(it.c)
        r = R.sub(mc.rexpr)
        prove.obligation(rep, nm, it, 'at most %s examined bytes are kept (%s)' % (tm.show(w), tm.show(r)), tm.ule(r, w))
        if mc.peeled:
            bad = [j for j, x in enumerate(mc.peeled.rs) if not (is_const(x) and tm.cval(x) <= min(j, 32))]
            if bad:
                rep.undecided(it.name + ': first bytes', 'kept after %d bytes: %s' % (bad[0], tm.show(mc.peeled.rs[bad[0]])), it.where)
            else:
                rep.held(it.name + ': first bytes', 'at most the bytes seen so far are kept during the first %d' % it.c.peel, it.where)
        # look-back: every byte of the stream the step reads is the new one or a kept one
        nl = 0
        ok = True
        for a in lags([A.D, A.after, A.gate] + list(A.post.values())):
            nl += 1
            if not th.diff(a, w, A.base) or is_const(a) and is_const(w) and tm.cval(a) <= tm.cval(w):
                continue
            ok = False
            rep.undecided(it.name + ': look-back of %s' % tm.show(a), 'not shown to be within the kept bytes', it.where)
        oob = [p for p, ls in R.step.panics if 'bounds' in str(p.where) or 'slice' in str(p.where)]
        if oob:
            rep.undecided(it.name + ': look-back', 'a search may read outside of the kept bytes: %s' % (oob[0].where,), it.where)
        elif ok:
            rep.held(it.name + ': look-back', 'every one of the %d byte reads behind the new byte stays within the kept bytes' % nl, it.where)
        rep.count(lookback_reads=nl, transition_functions=1)
        heap(rep, it, w)
    for it in algo.every(kinds=['push']):
        if it.err and not it.grown:
            rep.undecided(it.name + ': buffers', it.err, it.where)
            continue
        heap(rep, it, window(it.c))
        rep.count(transition_functions=1)
    for a in M.ALGS:
        for k in ('fce',):
            c03.sensitive(rep, a, k)


def lags(vs):
    out, seen = set(), set()
    for v in vs:
        for a in tm.atoms_of(v):
            if a.op == 'rd' and a.args[0] == 'lag':
                out.add(a.args[1])
    return out


def at(v, env):
    v = tm.subst(v, lambda t: tm.const(env[t.args[0]], t.w) if t.op == 'var' and t.args[0] in env else None)
    return tm.cval(v) if is_const(v) else 1 << 64


def initial(mc, env):
    """bytes allocated at the start: growth beyond the window is what is not allowed"""
    return sum(at(e[3][1], env) % (1 << 64) for e in mc.init_events if e[0] == 'alloc')


def heap(rep, it, w):
    A, R, mc = it.A, it.R, it.mc
    nm = it.name + ': buffers'
    if R.step.grow:
        ev = R.step.grow[0]
        bad = R.sub(ev[2])
        hints = []
        for p in paths(bad)[:4]:
            for k, (env, tab, v) in enumerate(evalt.sample([], list(R.base) + p, 5, 400)):
                if k > 4:
                    break
                hints.append({a: b for a, b in env.items() if b < 5000})
        x = feasible.scan(A, [bad], 1, 60000, hints)
        if x and initial(mc, x[0]) >= at(w, x[0]):
            rep.violation(nm, 'a buffer grows at %s (%s): reached with %s after %d bytes' % (ev[1], ev[3], feasible.conf(x[0]), x[1] + 1), ev[1],
                          key=nm.replace(' ', '_'))
        else:
            rep.undecided(nm, 'growth at %s is not excluded' % ev[1], ev[1])
        return
    allocs = [e for e in mc.init_events if e[0] == 'alloc'] + [e for e in R.step.res.events if e[0] == 'alloc']
    big = []
    for e in allocs:
        size = e[3][1]
        table = is_const(size) and tm.cval(size) == 1024 and it.c.alg == 'buzb'
        if not table and not th.entails(list(R.base), tm.ule(size, tm.umax(w, C(32)) if it.c.alg == 'zstd' else w)):
            big.append((e[1], tm.show(size)))
    if big:
        rep.undecided(nm, 'allocation of %s at %s' % (big[0][1], big[0][0]), big[0][0])
    else:
        rep.held(nm, '%d allocations, none larger than the window, no growth on any path' % len(allocs), it.where)
        rep.count(allocations=len(allocs))
