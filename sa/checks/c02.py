"""C02: chunking never panics."""
from .. import algo, stream, feasible, evalt, model, tables, machine as M, terms as tm, theory as th, interp as ip
from ..interp import State, paths, Unsupported
from ..terms import FALSE
from ..spec0 import module, call, outobj, where
from . import c03, c11


def check(rep):
    rep.rule = ('every panic site reachable from the constructors, the starting of chunkers and the calls on one byte and on short pieces (overflow and '
                'bounds checks of the compiled code included) has an infeasible path condition, for every valid configuration and every state satisfying '
                'the inferred invariants')
    m, g = module()
    tables.register()
    for nm, alg, ctor, args, base, doc, dbase, tab in c11.alternates():
        w = where(m, m.fns['@' + ctor])
        with rep.item('constructor: ' + nm, w, 60):
            st = State()
            st.setarray('table', ip.mem('init', 'table'))
            o = outobj(st, 'cfg')
            r = call(ctor, [o] + args, st, base=base, tag='#c')
            config(rep, 'constructor: ' + nm, r.panics, base, w)
    for alg in M.ALGS:
        for c in algo.configs(alg):
            w = where(m, m.fns['@' + alg + '_cfg'])
            with rep.item('constructor: ' + c.name, w, 60):
                config(rep, 'constructor: ' + c.name, M.config_state(c).panics, c.base, w)
    for it in algo.every():
        w = it.where
        if it.mc:
            with rep.item('start: ' + it.name, w, 60):
                config(rep, 'start: ' + it.name, [p for p, ls in it.mc.init_panics], it.mc.base, w)
        if it.err:
            rep.undecided('one byte: ' + it.name, it.err, w)
            continue
        with rep.item('one byte: ' + it.name, w, 60):
            step(rep, it)
        rep.count(transition_functions=1)
        for v in stream.variants(it.c):
            i = it if v is it.c else algo.get(v, it.kind)
            if i.err:
                rep.undecided('pieces: ' + i.name, i.err, w)
                continue
            pieces(rep, i)
    for a in M.ALGS:
        for k in ('push', 'fce'):
            c03.sensitive(rep, a, k)


def config(rep, nm, panics, base, w):
    """panic conditions over the configuration alone"""
    bad = []
    for p in panics:
        for ls in paths(p.gate):
            if not th.infeasible(list(base) + ls):
                bad.append((p, list(base) + ls))
    if not bad:
        rep.held(nm, '%d panic sites, none reachable in the valid domain' % len(panics), w)
        rep.count(panic_sites=len(panics))
        return
    for p, ls in bad:
        for env, tab, v in evalt.sample([], ls, 1, 3000):
            rep.violation(nm, 'panics at %s when %s (for example %s)' % (at(p), show(ls), feasible.conf(env)), at(p), key=nm.replace(' ', '_'))
            return
    p, ls = bad[0]
    rep.undecided(nm, 'panic at %s when %s' % (at(p), show(ls)), at(p))


def at(p):
    return p.where[0] if isinstance(p.where, tuple) else str(p.where)


def show(ls):
    return ' and '.join(('' if b else 'not ') + tm.show(k)[:120] for k, b in ls[-5:]) or 'always'


def step(rep, it):
    R = it.R
    n = len(R.step.res.panics)
    nm = 'one byte: ' + it.name
    for p, ls in R.step.panics:
        bad = model.canon_tables(R.sub(p.gate), model.KNOWN)
        fs = [f for f in paths(bad) if not th.infeasible(list(it.A.base) + f)]
        if not fs:
            continue
        hints = []
        for f in fs[:4]:
            for k, (env, tab, v) in enumerate(evalt.sample([], list(it.A.base) + f, 5, 400)):
                if k > 4:
                    break
                hints.append({a: b for a, b in env.items() if b < 5000})
        w = feasible.scan(it.A, [bad], 1, 60000 if rep.tier == 'quick' else 400000, hints) or feasible.aimed(it.A, it.A.base, fs, [bad]) or \
            feasible.far(it.A, it.A.base, fs, [bad])
        if w:
            rep.violation(nm, 'panics at %s when %s; reached with %s after %d bytes' % (at(p), show(fs[0]), feasible.conf(w[0]), w[1] + 1), at(p),
                          key=nm.replace(' ', '_'))
        else:
            rep.undecided(nm, 'panic at %s when %s' % (at(p), show(fs[0])), at(p))
        return
    rep.held(nm, '%d panic sites, none reachable from a reachable state' % n, it.where)
    rep.count(panic_sites=n)


def pieces(rep, it):
    """panic sites of one call on a piece"""
    for L in ([0, 2] if it.c.alg == 'zpaq' else [0, 2, 3]) if rep.tier == 'quick' else c03.lengths(it, rep.tier):
        nm = 'piece of %d bytes: %s' % (L, it.name)
        with rep.item(nm, it.where, 45):
            mc, R = it.mc, it.R
            r = mc.rexpr
            c = stream.feed(mc, stream.lits_of(mc, R), mc.state(), M.C(0), tm.add(r, M.C(L)) if it.kind == 'fce' else M.C(L), '#w', it.kind)
            n = len(c.s.res.panics)
            if not c.panics:
                rep.held(nm, '%d panic sites, none reachable' % n, it.where)
                rep.count(panic_sites=n)
                continue
            c.pos, c.drop = getattr(c, 'pos', stream.NONE), getattr(c, 'drop', M.C(0))
            p = c.panics[0][0]
            w = reach(mc, R, c, L, rep.tier)
            if w:
                rep.violation(nm, 'panics at %s when %s; reached with %s after %d bytes' % (at(p), show(c.panics[0][1]), feasible.conf(w[0]), w[1]), at(p),
                              key=nm.replace(' ', '_'))
            else:
                rep.undecided(nm, 'panic at %s when %s' % (at(p), show(c.panics[0][1])), at(p))


def reach(mc, R, c, L, tier):
    """a valuated reachable state and a piece on which the call panics"""
    import random
    rnd = random.Random(3)
    A = stream.feasible_model(mc, R)
    vs = feasible.cfgvars(A)
    hints = []
    for p, ls in c.panics[:3]:
        try:
            for k, (env, tab, v) in enumerate(evalt.sample([], ls, 5, 400)):
                if k > 4:
                    break
                hints.append({a: b for a, b in env.items() if b < 5000})
        except evalt.Unknown:
            pass
    steps = tries = 0
    while steps < (20000 if tier == 'quick' else 100000) and tries < 300:
        tries += 1
        env = feasible.config_env(A.cfgbase, vs, rnd, rnd.choice(hints) if hints and rnd.random() < .5 else None)
        if env is None:
            return None
        src = feasible.bytesrc(rnd)
        try:
            s = stream.Raw(mc, R, env)
            for t in range(rnd.choice((40, 40, 40, 300))):
                bs = [src() for _ in range(L)]
                steps += 1
                v = s.val(bs)
                if any(v(p.gate) for p, ls in c.panics):
                    return env, t
                s.step(bs[0] if bs else src())
        except evalt.Unknown:
            continue
    return None
