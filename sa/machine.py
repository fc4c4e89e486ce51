"""One-byte transition machines.

For one algorithm, one interface and symbolic constructor arguments, the compiled code is abstracted to
its transition function on one more byte of input: the value graph of `push` on a one-byte piece, or of
`find_chunk_edge` on a buffer with the bytes it was told to keep plus one new byte.  State cells are resolved,
by an inductive search over templates, to functions of the configuration and of the position in the chunk;
what remains are the algorithm's accumulators.
"""
from . import terms as tm, theory as th, interp as ip
from .terms import const, is_const, cval, var, ite, band, bor, bnot, TRUE, FALSE, mk, single
from .interp import State, Obj, Exec, ptr, mem, run, Unsupported, isarr, restrict, prune_gate, paths
from .spec0 import module, call, outobj, BIG

n_ = var('n', 64, 0, BIG)          # bytes since the last split
N_ = var('N', 64, 0, BIG)          # bytes since creation
b_ = var('byte', 8)                # the new byte


def lag(a):
    """the byte consumed a bytes before the new one (a >= 1)"""
    if isinstance(a, int):
        a = const(a, 64)
    return ap_lag(a)


def ap_lag(a):
    return tm.ap('lag', lambda x: b_ if is_const(x) and cval(x) == 0 else tm.atomv(mk('rd', 8, ('lag', x))), a)


def W(nm, lo=0, hi=BIG):
    return var(nm, 64, lo, hi)


class Cfg:
    """one way of configuring an algorithm"""

    def __init__(self, alg, args, base=(), ctor=None, periods=(), name='', peel=0):
        self.peel = peel
        self.alg, self.args, self.base, self.ctor, self.periods, self.name = alg, args, list(base), ctor, periods, name or alg


def lit(v, pol=True):
    """boolean diagram of a single comparison -> literal"""
    if v.op != 'ite':
        raise Exception('not a literal')
    c, h, l = v.args
    if h is TRUE and l is FALSE:
        return (c, pol)
    if h is FALSE and l is TRUE:
        return (c, not pol)
    raise Exception('not a literal')


C = lambda v, w=64: const(v, w)


def configs(alg):
    w, m = W('w', 1), W('m', 1)
    if alg == 'gear':
        return [Cfg(alg, [W('l', 1, 31)])]
    if alg in ('ram', 'mii'):
        return [Cfg(alg, [w], periods=[w])]
    if alg == 'pigz':
        return [Cfg(alg, [var('bits', 8, 0, 31)])]
    if alg == 'bup':
        return [Cfg(alg, [w], periods=[w])]
    if alg == 'gzip':
        return [Cfg(alg, [w, m], periods=[w])]
    if alg == 'fastcdc':
        mi, no, ma = W('min', 1), W('normal', 1), W('max', 1)
        return [Cfg(alg, [ptr('table'), mi, no, ma], base=[lit(tm.ult(no, mi), False), lit(tm.ult(ma, no), False)],
                    periods=[mi, no, ma])]
    if alg == 'zstd':
        return [Cfg(alg, [W('t', 1 << 20, (1 << 52) - 1)], periods=[C(32)], peel=32)]
    if alg == 'zpaq':
        out = []
        KN = ['incl', 'excl', 'none']
        for lt in range(3):
            for ht in range(3):
                lo, hi = W('lo'), W('hi')
                out.append(Cfg(alg, [var('avg', 8, 10, 32), C(lt), lo, C(ht), hi], periods=[],
                               name='zpaq[min %s, max %s]' % (KN[lt], KN[ht])))
        return out
    if alg in ('buzt', 'buzb', 'buzs', 'buzu'):
        k, mx, mask = W('k', 1), W('max', 1), var('mask', 32)
        pre = {'buzt': [ptr('table')], 'buzb': [ptr('table')], 'buzs': [ptr('table'), var('salt', 8)]}[alg]
        return [Cfg(alg, pre + [k, mask, mx], periods=[k, mx])]
    raise Exception(alg)


ALGS = ['gear', 'ram', 'mii', 'pigz', 'bup', 'gzip', 'fastcdc', 'zstd', 'zpaq', 'buzt', 'buzb', 'buzs']
TITLE = {'gear': 'gear', 'ram': 'ram', 'mii': 'mii', 'pigz': 'pigz', 'bup': 'bup', 'gzip': 'gzip', 'fastcdc': 'fastcdc', 'zstd': 'zstd',
         'zpaq': 'zpaq', 'buzt': 'buzhash(table)', 'buzb': 'buzhash(owned table)', 'buzs': 'buzhash(salted table)'}


def config_state(c):
    """run the constructor; returns State with object 'cfg', panics"""
    st = State()
    st.setarray('table', getattr(c, 'table', None) or mem('init', 'table'))
    o = outobj(st, 'cfg')
    r = call(c.ctor or c.alg + '_cfg', [o] + c.args, st, base=c.base, tag='#c')
    if r.state is None:
        raise Unsupported('constructor never returns')
    if getattr(c, 'patch', None):
        c.patch(r.state.objs['cfg'])
    return r


def live(panics, base):
    """panic outcomes whose gate is feasible"""
    out = []
    for p in panics:
        for ls in paths(p.gate):
            if not th.infeasible(list(base) + ls):
                out.append((p, ls))
                break
    return out


class Step:
    """result of one transition"""
    pass


class Machine:
    def __init__(self, c, kind, started=None):
        self.c, self.kind = c, kind
        self.alg = c.alg
        self.name = '%s %s' % (c.name, 'push' if kind == 'push' else 'find_chunk_edge')
        self.base = list(c.base)
        r = config_state(c)
        self.cfg_panics = live(r.panics, self.base)
        st = State(dict(r.state.objs))
        outobj(st, 'self')
        fn = self.alg + ('_incr' if kind == 'push' else '_state')
        r2 = started or call(fn, [ptr('self'), ptr('cfg')], st, base=self.base, tag='#i')
        self.init_panics = live(r2.panics, self.base)
        self.init_events = r2.events
        self.st0 = r2.state
        self.cfg0 = r.state.objs['cfg']
        self.fn = self.alg + ('_push' if kind == 'push' else '_fce')
        m, _ = module()
        self.where = fnwhere(m, self.fn)
        self.cells = {}         # off -> (size, init V)
        self.arrays = {}        # name -> init content
        o = self.st0.objs['self']
        for off, (size, v) in sorted(o.cells.items()):
            if isinstance(v, tuple):
                for k in range(0, size, 8):
                    s = min(8, size - k)
                    self.addcell(off + k, s, o.load(off + k, s))
            elif isarr(v):
                self.arrays['self+%d' % off] = v
                self.cells[off] = (size, v)
            else:
                self.addcell(off, size, v)
        self.bind = {}          # off -> V (resolved)
        self.kind_of = {}       # off -> 'param' | 'ghost' | 'acc' | 'array' | 'ptr'
        self.rexpr = C(0)

    def addcell(self, off, size, v):
        if v.op == 'undef':
            return
        self.cells[off] = (size, v)
        if v.op == 'ptr' and v.args[0].startswith('heap:'):
            self.arrays[v.args[0]] = self.st0.objs[v.args[0]].cells[0][1]

    def hv(self, off):
        """the symbolic accumulator of a cell"""
        size, v = self.cells[off]
        hi = None
        if size == 1 and off in self.bools:
            hi = 1
        return var('%s+%d' % (self.kind, off), 8 * size, 0, hi)

    bools = ()

    def state(self):
        st = State(dict(self.st0.objs))
        o = Obj('self', 'undef')
        for off, (size, v) in self.cells.items():
            if isarr(v):
                o.cells[off] = (size, mem('init', 'self+%d' % off) if self.bind.get(off) is None else self.bind[off])
            elif off in self.bind:
                o.cells[off] = (size, self.bind[off])
            else:
                o.cells[off] = (size, self.hv(off))
        st.objs['self'] = o
        for nm in self.arrays:
            if nm.startswith('heap:'):
                if self.arrkeep.get(nm):
                    st.setarray(nm, self.arrays[nm])
                else:
                    st.setarray(nm, mem('init', nm))
        return st

    arrkeep = {}

    def step(self, lits=(), st=None, rexpr=None, data=None, tag='', limit=90, off=None, ln=None):
        m, g = module()
        st = st or self.state()
        base = self.base + list(lits)
        r = self.rexpr if rexpr is None else rexpr
        st.setarray('data', data if data is not None else mem('init', 'S'))
        outobj(st, 'out')
        e = Exec(m, g, self.fn, base, tag or '#s')
        ps = [p[0] for p in e.f.params]
        if ln is None:
            ln = tm.add(r, C(1)) if self.kind == 'fce' else C(1)
        args = [ptr('self'), tm.add(ptr('data'), off) if off is not None else ptr('data'), ln, ptr('out')]
        if self.kind == 'fce':
            args = [ptr('cfg')] + args
        res = run(e, dict(zip(ps, args)), st, limit)
        s = Step()
        s.res = res
        s.base = base
        s.panics = live([p for p in res.panics if p.kind != 'grow'], base)
        s.grow = [ev for ev in res.events if ev[0] == 'grow' and any(not th.infeasible(base + p) for p in paths(ev[2]))]
        if res.state is None:
            s.dead = True
            return s
        s.dead = False
        o = res.state.objs['out']
        s.tag = o.load(0, 8)
        s.idx = o.load(8, 8)
        s.discard = o.load(16, 8) if self.kind == 'fce' else None
        s.D = bnot(tm.eq(s.tag, C(0)))
        s.gate = res.gate
        s.post = {}
        so = res.state.objs['self']
        for off, (size, v) in self.cells.items():
            if isarr(v):
                zo, zs, zv = so.zone(off, off + size)
                s.post[off] = zv
            else:
                s.post[off] = so.load(off, size)
        s.state = res.state
        s.len = ln
        return s


def fnwhere(m, fn):
    f = m.fns['@' + fn]
    best = None
    for b, ins in f.blocks.items():
        for i in ins:
            if i.dbg is not None:
                w = m.where(i.dbg)
                if w.startswith('src/') and 'lib.rs' not in w and ('(push' in w or '(find_chunk_edge' in w):
                    return w
                if best is None and w.startswith('src/') and 'src/lib.rs' not in w:
                    best = w
    return best or fn


# ---------------------------------------------------------------- resolution of state cells

class Cand:
    """a closed form of a state cell in the position: f(v, q) with v the count and q(P) the count mod P"""

    def __init__(self, text, f, ghost='n', rank=0):
        self.text, self.f, self.ghost, self.rank = text, f, ghost, rank

    def at(self, nv, Nv, q):
        v = nv if self.ghost == 'n' else Nv
        return self.f(v, lambda P: q(self.ghost, P))

    def now(self, env):
        return self.at(n_, env.N, env.q0)

    def next(self, env):
        return self.at(tm.add(n_, C(1)), tm.add(env.N, C(1)), env.q1)

    def zero(self, env):
        """right after a split (the stream position still advances)"""
        return self.at(C(0), tm.add(env.N, C(1)), env.qz)

    def init(self):
        return self.at(C(0), C(0), lambda g, P: C(0))


class Env:
    def __init__(self, N=N_):
        self.N = N
        self.ring = set()

    def gv(self, g):
        return n_ if g == 'n' else self.N

    def q0(self, g, P):
        if is_const(P):
            v = var('q%d%s' % (cval(P), g), 64, 0, cval(P) - 1)
        else:
            v = tm.urem(self.gv(g), P)
        self.ring.add((g, P, v))
        return v

    def q1(self, g, P):
        s = tm.add(self.q0(g, P), C(1))
        return ite(tm.eq(s, P), C(0), s)

    def qz(self, g, P):
        return C(0) if g == 'n' else self.q1(g, P)


def sized(v, size):
    return tm.trunc(v, 8 * size) if size < 8 else v


def counter_cands(size, v0, slope, periods):
    """closed forms with the given initial value and initial slope"""
    out = []

    def L(x):
        return lambda v, q, x=x: sized(tm.add(tm.zext(v0, 64) if v0.w < 64 else v0, tm.mul(C(slope & tm.M(64)), x(v, q))), size)
    if slope == 0:
        out.append(Cand('const', lambda v, q: v0))
        for P in periods:
            if is_const(v0):
                out.append(Cand('wrapped offset', L1(v0, size, P), rank=2))
                if cval(v0) == 0:
                    out.append(Cand('full flag', lambda v, q, P=P: sized(ite(tm.ult(v, P), C(0), C(1)), size), rank=2))
                    out.append(Cand('after first', lambda v, q, P=P: sized(ite(tm.ult(P, v), C(1), C(0)), size), rank=4))
        return out
    out.append(Cand('%+d per byte' % slope, L(lambda v, q: v)))
    for P in periods:
        p = tm.show(P)
        out.append(Cand('up to ' + p, L(lambda v, q, P=P: tm.umin(v, P)), rank=1))
        out.append(Cand('modulo ' + p, L(lambda v, q, P=P: q(P)), rank=1))
        P1 = tm.sub(P, C(1))
        if not (is_const(P) and cval(P) < 2):
            out.append(Cand('up to %s-1' % p, L(lambda v, q, P1=P1: tm.umin(v, P1)), rank=3))
            out.append(Cand('modulo %s-1' % p, L(lambda v, q, P1=P1: q(P1)), rank=3))
        P2 = tm.mul(C(2), P)
        out.append(Cand('up to 2*%s' % p, L(lambda v, q, P2=P2: tm.umin(v, P2)), rank=3))
        Q = tm.add(P, C(1))
        out.append(Cand('up to %s+1' % p, L(lambda v, q, Q=Q: tm.umin(v, Q)), rank=3))
        out.append(Cand('modulo %s+1' % p, L(lambda v, q, Q=Q: q(Q)), rank=3))
    return out


def L1(v0, size, P):
    return lambda v, q: sized(ite(tm.ult(v, P), C(0), q(P)), size) if cval(v0) == 0 else v0


def restrict_to(v, cond, base):
    """v under cond, as far as it is determined"""
    v = restrict(v, cond)
    if v.op == 'ite':
        ps = paths(cond)
        if len(ps) == 1:
            v = th.prune(v, list(base) + ps[0])
        else:
            d = ite(cond, v, mem('undef') if isarr(v) else mk('undef', v.w, ()))
            v2 = th.prune(d, list(base))
            v = v2
    return v


class Resolved:
    """the abstract transition function of a machine"""
    pass


class Trace:
    """explicit states after k bytes without a split, from the initial state"""

    def __init__(self, mc, steps, lits=(), start=None, pre='s', given=None, limit=90):
        self.vals = []      # per k: {off: V}
        self.rs = []
        self.D = []
        self.outs = []
        st, r, kept = start or (State(dict(mc.st0.objs)), C(0), [])     # kept: bytes retained (fce)
        base = list(lits)
        self.vals.append({o: v for o, (s, v) in mc.cells.items()})
        self.rs.append(r)
        self.bytes = []
        self.states = [st]
        nos = TRUE
        for k in range(steps):
            by = const(given[k], 8) if given else var('%s%d' % (pre, k + 1), 8)
            self.bytes.append(by)
            if not is_const(r):
                raise Unsupported('kept length is not fixed in the first steps: %s' % tm.show(r)[:200])
            kept = kept[len(kept) - cval(r):] if cval(r) else []
            seq = kept + [by]
            data = mem('fill', const(0, 8))
            for j, x in enumerate(seq):
                data = ip.m_store(data, C(j), 1, x)
            if len(seq) == 1:
                data = mem('fill', by)
            s = mc.step(lits, st=st, rexpr=r, data=data, tag='#%s%d' % (pre, k), limit=limit)
            if s.dead:
                raise Unsupported('first steps do not return')
            nos = prune_gate(band(s.gate, bnot(s.D)), s.base)
            self.outs.append((s, nos))
            if nos is FALSE:
                break
            st = State({nm: prune_obj(o, nos, s.base) for nm, o in s.state.objs.items()
                        if nm not in ('data', 'out') and not nm.startswith('alloca:')})
            so = st.objs['self']
            vals = {}
            for off, (size, v) in mc.cells.items():
                if isarr(v):
                    vals[off] = so.zone(off, off + size)[2]
                else:
                    vals[off] = so.load(off, size)
            self.vals.append(vals)
            if mc.kind == 'fce':
                r = restrict_to(kept_after(s), nos, s.base)
            self.rs.append(r)
            self.states.append(st)
            kept = seq
        self.kept = kept[len(kept) - cval(r):] if is_const(r) and cval(r) else []


def kept_after(s):
    """examined bytes the caller keeps after a search: what lies between the discarded part and the edge"""
    return ite(s.D, tm.sub(s.idx, s.discard), tm.sub(s.len, s.discard))


def small_mod(v, lits):
    """x mod P is x where the context shows x < P"""
    def mp(t):
        if t.op == 'urem':
            x, P = tm.subst(t.args[0], mp), tm.subst(t.args[1], mp)
            c = tm.ult(x, P)
            if th.entails(list(lits), c):
                return x
        return None
    return tm.subst(v, mp)


def prune_obj(o, cond, base):
    r = Obj(o.name, o.kind)
    for off, (size, v) in o.cells.items():
        if isinstance(v, tuple):
            r.cells[off] = (size, v)
        else:
            r.cells[off] = (size, small_mod(restrict_to(v, cond, base), base))
    return r


def diff_const(a, b):
    """b - a when it is a constant"""
    if a.op == 'ite' or b.op == 'ite' or a.op != 'poly' or b.op != 'poly' or a.w == 1:
        return None
    d = tm.p_sub(b, a)
    if is_const(d):
        x = cval(d)
        return x - (1 << d.w) if x >> (d.w - 1) else x
    return None


def big(periods):
    """literals putting every period beyond the first few steps"""
    out = []
    for P in periods:
        if not is_const(P):
            out.append(lit(tm.ult(P, C(9)), False))
    return out


LOG = None


def log(*a):
    if LOG:
        print(*a, file=LOG)


def resolve(mc):
    """bind every state cell; returns Resolved"""
    c = mc.c
    mc.arrkeep = {}
    # pointers and never-written arrays
    for off, (size, v) in mc.cells.items():
        if not isarr(v) and v.op == 'ptr':
            mc.bind[off] = v
            mc.kind_of[off] = 'ptr'
    mc.bools = tuple(off for off, (size, v) in mc.cells.items() if size == 1 and not isarr(v) and is_const(v) and cval(v) <= 1)
    start = None
    mc.peeled = None
    mc.r0 = C(0)
    if c.peel:
        # the first bytes of the stream one by one, the steady state after them inductively
        pt = Trace(mc, c.peel, pre='p')
        mc.peeled = pt
        if len(pt.vals) <= c.peel:
            raise Unsupported('always splits within the first %d bytes' % c.peel)
        st = pt.states[c.peel]
        mc.cells0 = mc.cells
        mc.cells = {o: (sz, pt.vals[c.peel][o]) for o, (sz, v) in mc.cells.items()}
        mc.st0p = st
        for nm in list(mc.arrays):
            if nm.startswith('heap:'):
                mc.arrays[nm] = st.objs[nm].cells[0][1]
        mc.r0 = pt.rs[c.peel]
        start = (st, mc.r0, pt.kept)
    tr = Trace(mc, 3, big(c.periods), start=start)
    mc.trace = tr
    free = [off for off, (size, v) in mc.cells.items() if off not in mc.bind and not isarr(v)]
    cand = {}
    for off in free:
        size, v0 = mc.cells[off]
        vs = [t[off] for t in tr.vals]
        ds = [diff_const(vs[i], vs[i + 1]) for i in range(len(vs) - 1)]
        cand[off] = []
        if len(ds) == 3 and all(d is not None for d in ds) and len(set(ds)) == 1:
            cand[off] = counter_cands(size, v0, ds[0], c.periods)
        elif len(vs) == 4 and size == 1 and all(vs[k + 1] is tr.bytes[k] for k in range(3)):
            cand[off] = [Cand('previous byte', lambda v, q, v0=v0: ite(tm.eq(v, C(0)), v0, lag(1)))]
        cand[off].sort(key=lambda x: x.rank)
        cand[off] = [x for x in cand[off]] + [Cand(x.text + ' (stream)', x.f, 'N', x.rank) for x in cand[off] if x.text != 'const']
        cand[off] = cand[off][:40]
    rc = []
    if mc.kind == 'fce':
        ds = [diff_const(tr.rs[i], tr.rs[i + 1]) for i in range(len(tr.rs) - 1)]
        if len(ds) == 3 and len(set(ds)) == 1 and ds[0] in (0, 1):
            rc = [x for x in counter_cands(8, mc.r0, ds[0], c.periods) if x.rank <= 3]
            rc = rc + [Cand(x.text + ' (stream)', x.f, 'N', x.rank) for x in rc if x.text != 'const']
    pos = {off: 0 for off in cand}
    rpos = 0
    env = Env()
    best = None
    last = set()

    def favour():
        """counters that may equal the number of bytes kept are tried in that form first"""
        for off in cand:
            cand[off].sort(key=lambda x: (x.text != rc[rpos].text, x.ghost == 'N', x.rank))
    if rc:
        favour()
    for it in range(60):
        for off in cand:
            if pos[off] < len(cand[off]):
                mc.bind[off] = cand[off][pos[off]].now(env)
            else:
                mc.bind.pop(off, None)
        if mc.kind == 'fce':
            if rpos >= len(rc):
                raise Unsupported('the number of bytes to keep has no closed form')
            mc.rexpr = rc[rpos].now(env)
        old = tm.budget(8)
        try:
            R = attempt(mc, env, {off: cand[off][pos[off]] for off in cand if pos[off] < len(cand[off])},
                        rc[rpos] if mc.kind == 'fce' else None)
        except (tm.TooLong, RecursionError):
            tm.restore(old)
            tm.expired()
            # this combination leads nowhere (the loop over the buffer does not settle)
            R = Resolved()
            R.bad = set(o for o in last if pos.get(o, 99) < len(cand.get(o, ()))) or set(o for o in cand if pos[o] < len(cand[o]))
            R.why = {}
            if not R.bad:
                raise
        finally:
            tm.restore(old)
        last = R.bad - {'r'}
        log('   try', {off: (cand[off][pos[off]].text if pos[off] < len(cand[off]) else 'acc') for off in cand},
            rc[rpos].text if rc else '', 'bad', R.bad)
        if not R.bad:
            break
        adv = R.bad
        if 'r' in adv:
            # the kept length first: other cells are judged under it
            rpos += 1
            if rpos < len(rc):
                for off in pos:
                    pos[off] = 0
                favour()
                continue
            raise Unsupported('the number of bytes to keep has no closed form (%s)' % R.why.get('r', '')[:300])
        if best is None:
            best = R
        for off in adv:
            pos[off] += 1
    else:
        raise Unsupported('cells do not settle')
    R.first_bad = best
    R = houdini(mc, env, R, {off: cand[off][pos[off]] for off in cand if off in mc.bind}, rc[rpos] if mc.kind == 'fce' else None)
    R.first_bad = best
    for off in cand:
        mc.kind_of[off] = 'acc' if off not in mc.bind else ('param' if cand[off][pos[off]].text == 'const' else 'ghost')
    R.cand = {off: cand[off][pos[off]] for off in cand if pos[off] < len(cand[off])}
    return R


def houdini(mc, env, R, cand, rcand):
    """inductive inequalities between the count, the unresolved counters and the parameters"""
    ints = [off for off, (size, v) in mc.cells.items() if size == 8 and off not in mc.bind and not isarr(v)
            and (v.op == 'poly' and is_const(v))]
    cs = []
    for P in mc.c.periods:
        if is_const(P):
            continue
        cs.append(('n', lambda e, P=P: tm.ult(e('n'), P)))
        cs.append(('n', lambda e, P=P: tm.ule(e('n'), P)))
        for off in ints:
            cs.append((off, lambda e, P=P, off=off: tm.ult(e(off), P)))
            cs.append((off, lambda e, P=P, off=off: tm.ule(e(off), P)))
    for off in ints:
        cs.append((off, lambda e, off=off: tm.ule(e(off), e('n'))))
    z = lambda k: C(0) if k == 'n' else mc.cells[k][1]
    cs = [f for k, f in cs if th.entails(list(mc.base), f(z))]
    now = lambda k: n_ if k == 'n' else mc.hv(k)
    mc.facts = []
    for it in range(8):
        mc.facts = []
        for f in cs:
            v = f(now)
            if not is_const(v):
                mc.facts.append(lit(v))
        R = attempt(mc, env, cand, rcand)
        if not cs:
            break
        nx = lambda k: ite(R.D, C(0), tm.add(n_, C(1))) if k == 'n' else R.post[k]
        keep = []
        for f in cs:
            bad = band(R.gate, bnot(f(nx)))
            if all(th.infeasible(R.base + p) for p in paths(bad)):
                keep.append(f)
        if len(keep) == len(cs):
            break
        cs = keep
    else:
        mc.facts = []
        R = attempt(mc, env, cand, rcand)
    R.facts = list(mc.facts)
    for off in R.post:
        R.post[off] = th.prune(R.post[off], R.base)
    R.idx = th.prune(R.idx, R.base)
    R.D = th.prune(R.D, R.base)
    return R


def eqs(a, b, lits):
    """values shown equal under lits"""
    return not th.diff(a, b, lits)


def attempt(mc, env, cand, rcand):
    """one inductive attempt: step under the current bindings, compare with the advanced bindings"""
    R = Resolved()
    R.mc, R.env = mc, env
    lits = [lit(tm.ult(N_, n_), False)]
    used = set(x.ghost for x in list(cand.values()) + ([rcand] if rcand else []))
    if used == {'N'} or 'N' not in used:
        lits = []
    s = mc.step(lits + list(getattr(mc, 'facts', ())))
    R.step = s
    R.bad = set()
    R.why = {}
    if s.dead:
        raise Unsupported('no normal return')
    R.base = s.base
    arrays(mc, env, R, s)
    sub = reader(mc, env, R)
    R.sub = sub
    D = sub(s.D)
    R.gate = sub(s.gate)
    D = prune_gate(D, R.base) if D.op == 'ite' else D
    R.D = D
    R.idx = sub(s.idx)
    R.post = {}
    for off in mc.cells:
        if isarr(mc.cells[off][1]):
            continue
        R.post[off] = sub(s.post[off])
    wide = [off for off in mc.bools if off not in mc.bind and any(
        not (l.op == 'undef' or l.op == 'poly' and tm.rng(l)[1] <= 1) and not th.infeasible(R.base + ls)
        for ls, l in leaves(ite(R.gate, R.post[off], const(0, 8))))]
    if wide:
        # not a flag after all: its range is not preserved
        mc.bools = tuple(o for o in mc.bools if o not in wide)
        return attempt(mc, env, cand, rcand)
    care = R.gate
    for off, x in cand.items():
        nx, z = x.next(env), x.zero(env)
        want = sub(ite(D, z, nx))
        got = R.post[off]
        U = mk('undef', got.w, ())
        d = th.diff(ite(care, got, U), ite(care, want, U), R.base)
        if d:
            R.bad.add(off)
            R.why[off] = d[0]
    if rcand is not None:
        got = sub(kept_after(s))
        nx, z = rcand.next(env), rcand.zero(env)
        want = sub(ite(D, z, nx))
        U = mk('undef', 64, ())
        d = th.diff(ite(care, got, U), ite(care, want, U), R.base)
        R.rnext = got
        if d:
            R.bad.add('r')
            R.why['r'] = 'code keeps %s where %s' % (tm.show(d[0][1])[:200], tm.show(d[0][2])[:200])
    return R


def arrays(mc, env, R, s):
    """find ring buffers: one write per step of the new byte at the count modulo a period"""
    R.rings = {}
    R.filled = set()
    R.fresh = set()     # rings that every split empties to their initial content
    R.const = set()     # arrays no step writes
    R.arrpost = {}
    names = []
    for off, (size, v) in mc.cells.items():
        if isarr(v):
            names.append(('self+%d' % off, s.post[off], v))
        elif v.op == 'ptr' and v.args[0].startswith('heap:'):
            names.append((v.args[0], None, mc.arrays[v.args[0]]))
            p = s.post[off]
            # content behind the pointer after the step
            names[-1] = (v.args[0], content(p, s.state), mc.arrays[v.args[0]])
    for nm, post, init in names:
        R.arrpost[nm] = (post, init)
        if post is None:
            continue
        if post is mem('init', nm):
            R.const.add(nm)
            continue
        if init.op == 'mem' and init.args[0] == 'fill' and is_const(init.args[1]):
            lv = []
            leaves_of(ite(s.gate, ite(s.D, post, init), init), [], lv)
            if all(l is init or th.infeasible(R.base + ls) for ls, l in lv):
                R.fresh.add(nm)
        lv = []
        leaves_of(post, [], lv)
        rd = None
        ok = True
        for ls, leaf in lv:
            if th.infeasible(R.base + ls):
                continue
            if leaf.args[0] == 'st' and leaf.args[1] is mem('init', nm) and leaf.args[3] == 1:
                x = leaf.args[2]
                if rd is None:
                    rd = [(ls, x, leaf.args[4])]
                else:
                    rd.append((ls, x, leaf.args[4]))
        if rd is None:
            continue
        for P in mc.c.periods:
            for g in ('n', 'N'):
                q = env.q0(g, P)
                if all(th.leaf_eq(R.base + ls, x, q) for ls, x, v in rd) and all(isnew(mc, v) for ls, x, v in rd):
                    R.rings[nm] = (P, g, q)
                    if mc.peeled and is_const(P) and cval(P) == mc.c.peel and all(
                            ip.m_read(init, C(j), 1) is mc.peeled.bytes[j] for j in range(cval(P))):
                        R.filled.add(nm)
                    break
            if nm in R.rings:
                break


def isnew(mc, v):
    """is v the new byte"""
    a = single(v)
    if a is None or a.op != 'rd' or a.args[0] != 'S':
        return False
    if mc.kind == 'push':
        return is_const(a.args[1]) and cval(a.args[1]) == 0
    return th.leaf_eq([], a.args[1], mc.rexpr) if mc.rexpr.op == 'poly' else not th.diff(a.args[1], mc.rexpr, [])


def leaves(v):
    out = []
    leaves_of(v, [], out)
    return out


def leaves_of(v, lits, out):
    if v.op == 'ite':
        leaves_of(v.args[1], lits + [(v.args[0], True)], out)
        leaves_of(v.args[2], lits + [(v.args[0], False)], out)
    else:
        out.append((lits, v))


def content(p, st):
    if p.op == 'ite':
        a, b = content(p.args[1], st), content(p.args[2], st)
        if a is None or b is None:
            return None
        return ite(tm.condv(p.args[0]), a, b)
    if p.op != 'ptr' or p.args[0] not in st.objs or st.objs[p.args[0]].kind != 'array':
        return None
    if not (is_const(p.args[1]) and cval(p.args[1]) == 0):
        return None
    return st.objs[p.args[0]].cells[0][1]


def reader(mc, env, R):
    """substitution of raw reads by bytes of the stream"""
    memo = {}

    def junk(nm, off):
        """what a ring holds where no byte of this chunk was written yet"""
        post, init = R.arrpost[nm]
        if nm in R.fresh or R.rings[nm][1] == 'N' and not (init.args[0] == 'undef'):
            return ip.m_read(init, off, 1)
        return tm.atomv(mk('rd', 8, ('old:' + nm, off)))

    def mp(t):
        if t.op != 'rd':
            return None
        nm, off = t.args[0], t.args[1]
        if nm == 'S':
            r = mc.rexpr if mc.kind == 'fce' else C(0)
            off = tm.subst(off, mp, memo)

            def f(o, r):
                a = tm.p_sub(r, o)
                # exact under the context is checked by the bounds obligations
                if is_const(a) and cval(a) == 0 or mc.kind == 'push':
                    return b_       # a one-byte piece has no other byte (reads are bounds-checked)
                return lag(a) if is_const(a) else ite(tm.eq(a, C(0)), b_, lag(a))
            return tm.ap('age', f, off, r)
        if nm in R.const:
            off = tm.subst(off, mp, memo)
            return ip.m_read(R.arrpost[nm][1], off, t.w // 8)
        if nm in R.rings:
            P, g, q = R.rings[nm]
            off = tm.subst(off, mp, memo)
            if th.leaf_eq(R.base, off, q) if off.op != 'ite' else False:
                if nm in R.filled:
                    return lag(P)
                return ite(tm.ult(env.gv(g), P), junk(nm, off), lag(P))
        return None

    def f(v):
        return tm.subst(v, mp, memo)
    return f
