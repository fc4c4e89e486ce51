"""C19: work is linear and every call returns."""
import random
from .. import algo, feasible, evalt, model, tables, machine as M, terms as tm, theory as th, interp as ip
from ..interp import State, paths, Unsupported
from ..terms import band, bnot, is_const, cval, FALSE, TRUE
from ..spec0 import module, where
from ..machine import C, Cfg, W

SMALL = 256         # a trip count or copy of this many is bookkeeping of fixed size


def check(rep):
    rep.rule = ('every loop reachable from the chunking calls advances a cursor by a constant towards a bound that is tested in every turn (or counts '
                'down a fixed number of turns); loops over the data contain no loop and no copy without a fixed bound; the transition on one byte takes a '
                'fixed number of turns in every reachable state, whatever the window')
    m, g = module()
    tables.register()
    fns = [(a, k, a + ('_push' if k == 'push' else '_fce')) for a in M.ALGS for k in ('push', 'fce')]
    fns += [(a, 'start', a + s) for a in M.ALGS for s in ('_cfg', '_incr', '_state')]
    bad = {}
    for alg, kind, fn in fns:
        f = m.fns.get('@' + fn)
        if f is None:
            continue
        loops = natural(f)
        for h, (lat, body) in sorted(loops.items()):
            rep.count(loops=1)
            w = loopwhere(m, f, h)
            nm = '%s: loop at %s' % (fn, w)
            why = progress(f, h, lat, body)
            inner = [k for k in loops if k != h and k in body and k != h and loops[k][1] < body and not fixed(f, k, loops[k])]
            if inner:
                why = (None, 'contains a loop (%s) without a fixed bound' % loopwhere(m, f, inner[0]))
            if why[0]:
                rep.held(nm, why[0], w)
            else:
                bad.setdefault((alg, kind), []).append((nm, why[1], w, None if inner else h))
    for it in algo.every():
        nm = it.name + ': work per byte'
        k = (it.c.alg, it.kind)
        why = None
        if it.err and not it.grown:
            why = it.err
        else:
            R = it.R
            res = R.step.res
            dv = [gt for h, gt in res.diverge if any(not th.infeasible(R.base + p) for p in paths(gt))]
            big = [(gt, n, d) for gt, n, d in res.copies if not copied(n, R.base + []) and feas(R, gt, n)]
            if dv:
                hang(rep, it, nm, res, dv)
                continue
            if R.step.grow:
                why = 'a buffer may grow at %s' % (R.step.grow[0][1],)
            elif big:
                why = 'copies %s bytes at %s' % (tm.show(big[0][1])[:100], m.where(big[0][2]))
        if not why:
            rep.held(nm, 'the transition on one byte is evaluated in %d turns and %d copies of fixed size for every reachable state and every window'
                     % (it.R.step.res.regions, len(it.R.step.res.copies)), it.where)
            rep.count(transition_functions=1, turns=it.R.step.res.regions)
        else:
            bad.setdefault(k, []).append((nm, why, it.where))
    items = {}
    for it in algo.every():
        items.setdefault((it.c.alg, it.kind), it)
    for (alg, kind), fs in list(bad.items()):
        it = items.get((alg, kind))
        if it is None or it.err or not any(len(x) > 3 for x in fs):
            continue
        old = tm.budget(40)
        try:
            sem = turns(it)
        except (Unsupported, tm.TooLong) as e:
            sem = {}
        finally:
            tm.restore(old)
        rest = []
        for x in fs:
            if len(x) > 3 and x[3] and sem.get(x[3]):
                rep.held(x[0], sem[x[3]], x[2])
            else:
                rest.append(x)
        bad[alg, kind] = rest
        if not rest:
            del bad[alg, kind]
    for (alg, kind), fs in sorted(bad.items()):
        fs = [x[:3] for x in fs]
        if kind == 'start':
            for nm, why, w in fs:
                rep.undecided(nm, why, w)
            continue
        try:
            old = tm.budget(110)
            try:
                t = grows(alg, kind)
            finally:
                tm.restore(old)
        except (Unsupported, tm.TooLong, evalt.Unknown) as e:
            t = None
            fs[0] = (fs[0][0], fs[0][1] + ' [cost: %s]' % e, fs[0][2])
        nm, why, w = fs[0]
        if t:
            rep.violation(nm, '%s; %s' % (why, t), w, key='%s_%s' % (alg, kind))
            fs = fs[1:]
        for nm, why, w in fs:
            rep.undecided(nm, why, w)


def feas(R, gt, n):
    return any(not th.infeasible(R.base + p) and not copied(n, R.base + p) for p in paths(gt))


def copied(n, lits):
    return all(tm.rng(l)[1] <= 2 * SMALL or th.entails(list(lits) + ls, tm.ule(l, C(2 * SMALL))) or th.infeasible(list(lits) + ls) for ls, l in M.leaves(n))


def hang(rep, it, nm, res, dv):
    R = it.R
    bads = [model.canon_tables(R.sub(gt), model.KNOWN) for gt in dv]
    w = feasible.scan(it.A, bads, 1, 60000)
    if not w:
        fs = [R.base[:0] + p for gt in bads for p in paths(gt) if not th.infeasible(R.base + p)]
        w = feasible.aimed(it.A, it.A.base, fs, bads)
    text = 'a turn of the loop in %s changes nothing and repeats' % it.mc.fn
    if w:
        rep.violation(nm, '%s; reached with %s after %d bytes' % (text, feasible.conf(w[0]), w[1] + 1), it.where, key='hang_%s_%s' % (it.c.alg, it.kind))
    else:
        rep.undecided(nm, text, it.where)


# ---------------------------------------------------------------- loops

def natural(f):
    cfg = ip.cfgof(f)
    pred = {}
    for b, ss in cfg.succ.items():
        for s in ss:
            pred.setdefault(s, []).append(b)
    out = {}
    for h in cfg.headers:
        lat = [b for b in pred[h] if b in cfg.idx and cfg.idx[b] >= cfg.idx[h]]
        body = {h}
        st = list(lat)
        while st:
            b = st.pop()
            if b in body or b not in cfg.idx:
                continue
            body.add(b)
            st += pred.get(b, [])
        out[h] = (lat, body)
    return out


def loopwhere(m, f, h):
    for i in f.blocks[h][::-1]:
        if i.dbg:
            w = m.where(i.dbg)
            if w.startswith('src/'):
                return w
    return '%s %s' % (f.name if hasattr(f, 'name') else '', h)


def defs(f):
    if not hasattr(f, '_defs'):
        f._defs = {}
        for b, ins in f.blocks.items():
            for i in ins:
                if i.res:
                    f._defs[i.res] = (b, i)
    return f._defs


def progress(f, h, lat, body):
    """(description, None) if the loop is counted, else (None, reason)"""
    phis = [i for i in f.blocks[h] if i.op == 'phi']
    cfg = ip.cfgof(f)
    why = 'no cursor advances in every turn'
    for p in phis:
        t, incs = p.a
        ds = set()
        halve = True
        for v, b in incs:
            if b not in lat:
                continue
            d = delta(f, v, p.res, body, frozenset())
            if d is None:
                ds = None
                halve = halve and shrinks(f, v, p.res, body)
                continue
            halve = False
            if ds is not None:
                ds |= d
        if ds is None and halve:
            if tested(f, p.res, body, lat, True):
                return 'the counter %s is at least halved in every turn and tested against its end' % p.res, None
            continue
        if not ds or 0 in ds or min(ds) < 0 < max(ds):
            continue
        if tested(f, p.res, body, lat, False):
            return 'the cursor %s moves by %s in every turn and is tested against its bound' % (p.res, sorted(ds)), None
        why = 'the cursor %s is not tested in every turn' % p.res
    return None, why


def fixed(f, h, lb):
    """the loop has a fixed number of turns"""
    lat, body = lb
    for p in [i for i in f.blocks[h] if i.op == 'phi']:
        t, incs = p.a
        init = [v for v, b in incs if b not in lat]
        if not all(v[0] == 'int' and v[1] <= SMALL for v in init):
            continue
        ds = set()
        halve = True
        for v, b in incs:
            if b in lat:
                d = delta(f, v, p.res, body, frozenset())
                ds = None if d is None or ds is None else ds | d
                halve = halve and shrinks(f, v, p.res, body)
        if halve and tested(f, p.res, body, lat, True):
            return True
        if ds and (min(ds) > 0 or max(ds) < 0):
            if max(ds) < 0 and tested(f, p.res, body, lat, False, const=True):
                return True
            if min(ds) > 0 and tested(f, p.res, body, lat, False, const=True):
                return True
    return False


def delta(f, v, phi, body, seen):
    if v[0] != 'reg':
        return None
    if v[1] == phi:
        return {0}
    d = defs(f).get(v[1])
    if d is None or d[0] not in body:
        return None
    if v[1] in seen:
        return set()
    seen = seen | {v[1]}
    b, i = d
    if i.op in ('add', 'sub'):
        x, y = i.a[1], i.a[2]
        if y[0] == 'int':
            k = signed(y[1], y[2])
            r = delta(f, x, phi, body, seen)
            return None if r is None else {c + (k if i.op == 'add' else -k) for c in r}
        if x[0] == 'int' and i.op == 'add':
            r = delta(f, y, phi, body, seen)
            return None if r is None else {c + signed(x[1], x[2]) for c in r}
        return None
    if i.op == 'getelementptr':
        t, base, idx = i.a[0], i.a[1], i.a[2]
        if len(idx) == 1 and idx[0][1][0] == 'int':
            from ..llir import sizeof
            k = signed(idx[0][1][1], idx[0][1][2]) * sizeof(t)
            r = delta(f, base, phi, body, seen)
            return None if r is None else {c + k for c in r}
        return None
    if i.op in ('phi', 'select'):
        vs = [x for x, _ in i.a[1]] if i.op == 'phi' else [i.a[2], i.a[3]]
        out = set()
        for x in vs:
            if x[0] in ('undef', 'poison'):
                continue
            r = delta(f, x, phi, body, seen)
            if r is None:
                return None
            out |= r
        return out
    if i.op == 'extractvalue':
        d2 = defs(f).get(i.a[1][1]) if i.a[1][0] == 'reg' else None
        if d2 and d2[1].op in ('call', 'invoke') and 'add.with.overflow' in str(d2[1].a[1]):
            args = d2[1].a[2]
            x, y = args[0][1], args[1][1]
            if y[0] == 'int':
                r = delta(f, x, phi, body, seen)
                return None if r is None else {c + y[1] for c in r}
        return None
    return None


def signed(x, w):
    return x - (1 << w) if x >> (w - 1) & 1 else x


def shrinks(f, v, phi, body):
    """v is phi shifted right by a constant"""
    if v[0] != 'reg':
        return False
    d = defs(f).get(v[1])
    if not d or d[0] not in body:
        return False
    i = d[1]
    return i.op in ('lshr', 'udiv') and i.a[1] == ('reg', phi) and i.a[2][0] == 'int' and i.a[2][1] >= (1 if i.op == 'lshr' else 2)


def tested(f, phi, body, lat, halve, const=False):
    """a branch that leaves the loop, taken in every turn, compares the cursor with something that does not change"""
    cfg = ip.cfgof(f)
    dom = dominators(f)
    for b in body:
        if not all(b in dom.get(l, ()) for l in lat):
            continue
        t = f.blocks[b][-1]
        if t.op == 'switch':
            conds = [(t.a[1], None)]
            succ = [t.a[2]] + [c[1] for c in t.a[3]]
        elif t.op == 'br' and t.a[0] is not None:
            conds = [(t.a[0], None)]
            succ = [t.a[1], t.a[2]]
        else:
            continue
        if not any(leaves_loop(f, s, body) for s in succ):
            continue
        if t.op == 'switch':
            if halve and derived(f, t.a[1], phi, body, halve):
                return True
            continue
        c = t.a[0]
        if c[0] != 'reg':
            continue
        d = defs(f).get(c[1])
        if not d:
            continue
        for x, y in compared(f, d[1]):
            for u, v in ((x, y), (y, x)):
                if derived(f, u, phi, body, halve) and invariant(f, v, body) and (not const or v[0] == 'int' and v[1] <= SMALL):
                    return True
    return False


def compared(f, i, depth=0):
    """operand pairs of the comparisons a condition consists of"""
    if i.op == 'icmp':
        return [(i.a[2], i.a[3])]
    if i.op == 'extractvalue':
        return []
    return []


def derived(f, v, phi, body, halve):
    if v == ('reg', phi):
        return True
    if halve:
        return shrinks(f, v, phi, body)
    r = delta(f, v, phi, body, frozenset())
    return bool(r)


def invariant(f, v, body):
    if v[0] != 'reg':
        return True
    d = defs(f).get(v[1])
    return d is None or d[0] not in body or pure_of(f, d[1], body)


def pure_of(f, i, body):
    """an address or length recomputed from values outside the loop"""
    if i.op in ('getelementptr',):
        return invariant(f, i.a[1], body) and all(invariant(f, x[1], body) for x in i.a[2])
    if i.op in ('add', 'sub'):
        return invariant(f, i.a[1], body) and invariant(f, i.a[2], body)
    return False


def leaves_loop(f, s, body):
    return s not in body


def dominators(f):
    if hasattr(f, '_dom'):
        return f._dom
    cfg = ip.cfgof(f)
    pred = {}
    for b, ss in cfg.succ.items():
        if b not in cfg.idx:
            continue
        for s in ss:
            pred.setdefault(s, []).append(b)
    allb = set(cfg.rpo)
    dom = {b: set(allb) for b in cfg.rpo}
    dom[f.entry] = {f.entry}
    ch = True
    while ch:
        ch = False
        for b in cfg.rpo:
            if b == f.entry:
                continue
            ps = [dom[p] for p in pred.get(b, [])]
            n = set.intersection(*ps) | {b} if ps else {b}
            if n != dom[b]:
                dom[b] = n
                ch = True
    f._dom = dom
    return dom


# ---------------------------------------------------------------- growth of the cost

def scaled(alg, s):
    """a configuration whose window (or every size) is s"""
    if alg == 'gear':
        return Cfg(alg, [C(20)])
    if alg in ('ram', 'mii', 'bup'):
        return Cfg(alg, [C(s)])
    if alg == 'pigz':
        return Cfg(alg, [tm.const(20, 8)])
    if alg == 'gzip':
        return Cfg(alg, [C(s), C(8191)])
    if alg == 'fastcdc':
        return Cfg(alg, [ip.ptr('table'), C(s), C(64 * s), C(256 * s)])
    if alg == 'zstd':
        return None
    if alg == 'zpaq':
        return Cfg(alg, [tm.const(24, 8), C(2), C(0), C(2), C(0)])
    k, mx, mask = C(s), C(1 << 20), tm.const(0xfffff, 32)
    pre = {'buzt': [ip.ptr('table')], 'buzb': [ip.ptr('table')], 'buzs': [ip.ptr('table'), tm.const(7, 8)]}[alg]
    return Cfg(alg, pre + [k, mask, mx])


def cost(res, val):
    """turns taken and bytes copied by the evaluation under a valuation"""
    n = sum(1 for h, gt in res.turns if val(gt))
    for gt, ln, d in res.copies:
        if val(gt):
            n += val(ln)
    return n


def grows(alg, kind):
    """text when the cost per byte grows with the window or with the piece"""
    if scaled(alg, 4) is None:
        return None
    err = None
    for t in range(9):
        for what, f in (('piece', bypiece), ('window and piece', byboth)):
            try:
                xs = []
                for s in (4, 8, 16):
                    xs.append(f(alg, kind, s, t))
                    if xs[-1] is None:
                        break
            except Unsupported as e:
                err = e
                continue
            if None in xs:
                continue
            a, b, c = xs
            if b - a >= 1.5 and c - b >= 3 and c - b >= 1.5 * (b - a):
                return 'with a %s of 4, 8 and 16 the extracted evaluation takes %.1f, %.1f and %.1f turns per byte' % (what, a, b, c)
    if err:
        raise err
    return None


def source(rnd, k):
    if k == 0:
        return lambda: rnd.randrange(256)
    if k in (1, 2, 3):
        return lambda: (0, 255, 37)[k - 1]
    if k in (4, 5):
        st = [250 if k == 4 else 5]

        def walk():
            st[0] = min(255, max(0, st[0] + rnd.randrange(3) * (-1 if k == 4 else 1)))
            return st[0]
        return walk
    return lambda: rnd.choice((0, 0, 0, rnd.randrange(256)))


def byboth(alg, kind, s, t):
    return bypiece(alg, kind, 3 * s, t, s)


def bypiece(alg, kind, s, t, w=4):
    """turns per byte of one call on s bytes by a new chunker, without a split"""
    src = source(random.Random(5 + t), t)
    mc = M.Machine(scaled(alg, w), kind)
    mc.bools = ()
    data = ip.mem('fill', tm.const(0, 8))
    for k in range(s):
        data = ip.m_store(data, C(k), 1, tm.const(src(), 8))
    st = mc.step(st=State(dict(mc.st0.objs)), rexpr=C(0), data=data, tag='#p', ln=C(s), limit=20000)
    if st.dead:
        return None
    v = evalt.Val({'#seed': t}, lambda n, o, w: feasible.table({'#seed': t}, n, o, w))
    try:
        if v(st.gate) and not v(st.D):
            return cost(st.res, v) / s
    except evalt.Unknown:
        pass
    return None


# ---------------------------------------------------------------- cursors, by evaluation of one turn

def turns(it):
    """for every loop of the call: text when one turn from arbitrary loop variables and memory advances a cursor"""
    mc, R = it.mc, it.R
    m, g = module()
    base = list(mc.c.base)
    e = ip.Exec(m, g, mc.fn, base, '#v')
    st = mc.state()
    st.setarray('data', ip.mem('init', 'S'))
    from ..spec0 import outobj
    outobj(st, 'out')
    ps = [p[0] for p in e.f.params]
    args = [ip.ptr('self'), ip.ptr('data'), tm.var('L', 64, 0, 1 << 60), ip.ptr('out')]
    if mc.kind == 'fce':
        args = [ip.ptr('cfg')] + args
    seen = {}
    work = [(e.f.entry, {}, dict(zip(ps, args)), st)]
    while work:
        start, phis, env, s = work.pop()
        for o in e.region(start, phis, env, s):
            if o.kind != 'header':
                continue
            if o.where == start and phis:
                seen[start].append((phis, o))
                continue
            if o.where in seen:
                continue
            seen[o.where] = []
            env2 = dict(env)
            env2.update(o.env)
            cut(e, o.where, env2)
            work.append((o.where, {k: loose(o.where + k, v) for k, v in o.phis.items()}, env2, havoc(mc, o.state)))
    out = {}
    for h, arr in seen.items():
        out[h] = None if not arr else advance(arr, base)
    return out


def cut(e, h, env):
    """values computed before the loop stay; those of the loop itself are computed anew"""
    lat, body = natural(e.f)[h]
    d = defs(e.f)
    for k in list(env):
        if k in d and d[k][0] in body:
            del env[k]


def loose(nm, v):
    r = v
    while r.op == 'ite':
        r = r.args[1] if r.args[1].op != 'undef' else r.args[2]
    if r.op == 'ptr':
        return tm.add(ip.ptr(r.args[0], 0), tm.var('v' + nm, 64, 0, 1 << 61))
    if r.w == 1:
        return tm.eq(tm.var('v' + nm, 8, 0, 1), tm.const(1, 8))
    return tm.var('v' + nm, r.w)


def havoc(mc, st):
    st = State(dict(st.objs))
    for nm in list(st.objs):
        if nm in ('cfg', 'data', 'table', 'out') or nm.startswith('G:'):
            continue
        o = st.objs[nm]
        n = ip.Obj(nm, o.kind)
        for off, (sz, v) in o.cells.items():
            if isinstance(v, tuple):
                n.cells[off] = (sz, v)
            elif ip.isarr(v):
                n.cells[off] = (sz, ip.mem('init', 'h~%s%d' % (nm, off)))
            elif v.op == 'ptr' or nm == 'self' and mc.kind_of.get(off) in ('ptr', 'param'):
                n.cells[off] = (sz, v)
            elif v.op == 'ite' and any(l.op == 'ptr' for ls, l in M.leaves(v)):
                n.cells[off] = (sz, v)
            else:
                n.cells[off] = (sz, tm.var('h%s+%d' % (nm, off), 8 * sz))
        st.objs[nm] = n
    return st


def advance(arr, base):
    phis = arr[0][0]
    for k, old in phis.items():
        ds = set()
        ok = True
        for _, o in arr:
            for ls in paths(o.gate):
                lits = base + ls
                if th.infeasible(lits):
                    continue
                new = o.phis[k]
                for l2, l in M.leaves(new):
                    if th.infeasible(lits + l2):
                        continue
                    d = gap(l, old)
                    if d is None or d == 0 or not any(mentions(c, old) for c, p in ls):
                        ok = False
                        break
                    ds.add(d)
                if not ok:
                    break
            if not ok:
                break
        if ok and ds and (min(ds) > 0 or max(ds) < 0):
            return 'one turn from arbitrary loop variables and memory moves the cursor %s by %s, under a test of that cursor' % (k, sorted(ds))
    return None


def gap(new, old):
    if new.op == 'ptr' and old.op == 'ptr':
        if new.args[0] != old.args[0]:
            return None
        d = tm.sub(new.args[1], old.args[1])
    elif new.op == 'poly' and old.op == 'poly' and new.w == old.w:
        d = tm.sub(new, old)
    else:
        return None
    if not is_const(d):
        return None
    x = cval(d)
    return x - (1 << d.w) if x >> (d.w - 1) else x


def mentions(c, old):
    want = {a for a in tm.atoms_of(old.args[1] if old.op == 'ptr' else old)}
    return any(a in want for a in tm.atoms_of(tm.condv(c)))
