"""C06: a split starts afresh (zstd: the window is carried across splits)."""
import random
from .. import algo, prove, model, feasible, evalt, terms as tm, theory as th, machine as M
from ..evalt import Unknown
from ..interp import paths, isarr, mem
from ..terms import bnot, band, bor, TRUE, FALSE, ite, is_const, mk
from ..machine import n_, C, leaves_of


def check(rep):
    rep.rule = ('noninterference: in the extracted transition graph, whenever a split is reported every accumulator and table is back at its initial '
                'value, every counter at its closed form for position 0, and neither the decision nor any state update reads the stream position or a '
                'byte from before the split (zstd: no update depends on whether a split was reported)')
    for it in algo.every():
        nm = 'afresh: ' + it.name if it.c.alg != 'zstd' else 'carried across splits: ' + it.name
        if it.err:
            rep.undecided(nm, it.err, it.where)
            continue
        with rep.item(nm, it.where):
            if it.c.alg == 'zstd':
                zstd(rep, nm, it)
            else:
                afresh(rep, nm, it)
        rep.count(transition_functions=1, state_cells=len(it.mc.cells))


def reads(vs):
    vars_, lag_, old = set(), set(), set()
    for v in vs:
        for a in tm.atoms_of(v):
            if a.op == 'var':
                vars_.add(a.args[0])
            if a.op == 'rd' and a.args[0] == 'lag':
                lag_.add(a)
            if a.op == 'rd' and a.args[0].startswith('old:'):
                old.add(a)
    return vars_, lag_, old


def afresh(rep, nm, it):
    A, R, mc = it.A, it.R, it.mc
    bad = []
    for k, (w, init, v) in A.accs.items():
        U = mk('undef', w, ())
        c = band(A.gate, A.D)
        for path, x, y in th.diff(ite(c, A.post[k], U), ite(c, init, U), A.base):
            bad.append('state cell %s is %s after a split, initially %s' % (k, tm.show(x)[:160], tm.show(y)[:80]))
            break
    for k, (init, post) in A.arrs.items():
        for ls in paths(band(A.gate, A.D)):
            if th.infeasible(A.base + ls):
                continue
            lv = []
            leaves_of(th.prune(post, A.base + ls), ls, lv)
            for l2, x in lv:
                if not th.infeasible(A.base + l2) and x is not init:
                    bad.append('table %s is %s after a split' % (k, tm.show(x)[:100]))
    # what the behaviour reads
    vs = [A.D, A.after, A.gate] + list(A.post.values()) + [p for i, p in A.arrs.values() if p is not None]
    vars_, lag_, old = reads([v for v in vs if not isarr(v)])
    streams = {v for p, g, v in A.ghosts if g == 'N'} | {'N'}
    for s in sorted(vars_ & streams):
        bad.append('the behaviour depends on the position in the stream (%s)' % s)
    for a in old:
        bad.append('a byte buffered before the split is read (%s)' % tm.show(a)[:80])
    # bytes looked back at lie within the chunk
    conds = lagconds(A)
    for a, ls in conds:
        if not th.entails(A.base + ls, tm.ule(a.args[1], n_)):
            bad.append('a byte from before the split is read (%s when %s)' % (tm.show(a), ' and '.join(tm.show(c)[:80] for c, p in ls[-3:])))
    if not bad:
        rep.held(nm, '%d accumulators and %d tables return to their initial values, %d look-back reads stay in the chunk'
                 % (len(A.accs), len(A.arrs), len(conds)), it.where)
        return
    hints = split_hints(A)
    w = fresh_apart(A, 80000 if rep.tier == 'quick' else 600000, hints)
    if w:
        env, t, k, ra, rb = w
        rep.violation(nm, '%s; with %s, %d bytes after a split following %d bytes the graph reports %s, a fresh one %s'
                      % (bad[0], feasible.conf(env), k + 1, t + 1, ra, rb), it.where, key=nm.replace(' ', '_'))
    else:
        rep.undecided(nm, '; '.join(bad[:3]), it.where)


def lagconds(A):
    """look-back reads with the path conditions under which they matter"""
    out = {}

    def go(v, ls):
        if v.op == 'ite':
            note(v.args[0], ls)
            go(v.args[1], ls + [(v.args[0], True)])
            go(v.args[2], ls + [(v.args[0], False)])
        else:
            note(v, ls)

    def note(t, ls):
        for a in tm.atoms_of(t):
            if a.op == 'rd' and a.args[0] == 'lag':
                key = (a, tuple(ls))
                if key not in out and not th.infeasible(A.base + ls):
                    out[key] = (a, ls)
    for v in [A.D, A.gate] + list(A.post.values()):
        go(ite(A.gate, v, mk('undef', v.w, ())) if v is not A.gate else v, [])
    return list(out.values())


def split_hints(A):
    hints = []
    for p in paths(A.D)[:4]:
        for k, (env, tab, v) in enumerate(evalt.sample([], A.base + p, 5, 300)):
            if k > 3:
                break
            hints.append({a: b for a, b in env.items() if b < 5000})
    return hints


def fresh_apart(A, budget, hints):
    """a history on which the graph after a split and a fresh graph report different splits"""
    rnd = random.Random(3)
    vs = feasible.cfgvars(A)
    steps = tries = rare = 0
    while steps < budget and tries < 500:
        tries += 1
        env = feasible.config_env(A.cfgbase, vs, rnd, rnd.choice(hints) if hints and rnd.random() < .4 else None)
        if env is None:
            return None
        src = feasible.bytesrc(rnd)
        if rare > 2:
            src = lambda: rnd.randrange(256)
        try:
            a = feasible.Side(A, env)
            f = None
            x = src()
            seen = 0
            T = rnd.choice((60, 60, 200, 600)) if rare < 6 else 40000
            for t in range(T):
                steps += 1
                ra = a.step(x)
                rf = f.step(x) if f else None
                if ra == 'panic' or rf == 'panic':
                    break
                if f is not None and ra != rf:
                    return env, t0, t - t0 - 1, feasible.res(ra), feasible.res(rf)
                if ra[0]:
                    seen += 1
                    f = feasible.Side(A, env)
                    t0 = t
                if not (ra[0] and not ra[1]):
                    x = src()
            rare += 1 if not seen else -1
        except Unknown:
            continue
    return None


def zstd(rep, nm, it):
    A, R, mc = it.A, it.R, it.mc
    mms, want = [], {}
    for k in A.accs:
        w = A.accs[k][0]
        lv = []
        leaves_of(ite(A.gate, A.post[k], mk('undef', w, ())), [], lv)
        lv = [(ls, x) for ls, x in lv if x.op != 'undef' and not th.infeasible(A.base + ls)]
        non = [x for ls, x in lv if any(not th.infeasible(A.base + ls + p) for p in paths(bnot(A.D)))]
        want[k] = non[0] if non else A.post[k]
        for path, x, y in th.diff(ite(A.gate, A.post[k], mk('undef', w, ())), ite(A.gate, want[k], mk('undef', w, ())), A.base):
            mms.append(model.Mismatch('the state after the byte (%s)' % k, A.base + path, x, y))
    split_dep = [x.text for x in R.cand.values() if x.text != 'const' and x.ghost == 'n']
    if not mms and not split_dep:
        rep.held(nm, 'no update of the %d accumulators and %d counters depends on the split' % (len(A.accs), len(R.cand)), it.where)
        return
    B = model.Model(A.name, A.where)
    B.__dict__.update(A.__dict__)
    B.post = want

    def watch(a, b):
        return any((a.acc[n] ^ b.acc[n]) & 0xfffff for n in a.acc if A_w[n] == 64)
    A_w = {tm.single(v).args[0]: w for w, i, v in A.accs.values()}
    w = feasible.related(A, B, mms, watch=watch) if mms else None
    if w:
        rep.violation(nm, 'the state after a split differs from the state without it: %s' % model.describe(mms, 1), it.where, key=nm.replace(' ', '_'))
    else:
        rep.undecided(nm, model.describe(mms, 2) or 'a counter restarts at splits', it.where)
