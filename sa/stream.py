"""Pieces of more than one byte: the function on a piece against its one-byte steps.

For an arbitrary reachable state s (the bound state of the extracted machine) and pieces of fixed small lengths, the value
graph of one call is compared with that of the calls on the single bytes; `unbounded` compares pieces of any length by
relating the iterations of the loop over the data."""
from . import machine as M, terms as tm, theory as th, interp as ip, feasible, evalt
from .terms import const, var, is_const, cval, ite, TRUE, FALSE, mk, band, bnot, bor
from .evalt import Val
from .interp import State, Obj, ptr, mem, paths, isarr, Unsupported
from .machine import C

NONE = const((1 << 64) - 1, 64)


class Call:
    """one call: state before -> position of the split (absolute) or NONE, bytes dropped, state after"""
    pass


DATA = None     # content of the buffer where part of it is known


def feed(mc, lits, st, off, ln, tag, kind):
    s = mc.step(lits, st=st, off=off, ln=ln, tag=tag, limit=150, data=DATA)
    c = Call()
    c.s = s
    c.base = s.base
    if s.grow and tag == '#w':      # whatever is compared with a call that cannot grow a buffer is compared on whether it returns, too
        raise Unsupported('a buffer may grow at %s' % (s.grow[0][1],))
    c.panics = s.panics
    c.dead = s.dead
    if s.dead:
        c.gate = FALSE
        return c
    c.gate = s.gate
    c.D = s.D
    c.pos = ite(s.D, tm.add(off, s.idx), NONE)
    c.drop = s.discard if kind == 'fce' else ite(s.D, s.idx, ln)
    c.state = s.state
    return c


def after(mc, c, cond, base):
    """the state left behind, where cond holds"""
    return State({nm: M.prune_obj(o, cond, base) for nm, o in c.state.objs.items()
                  if nm not in ('data', 'out') and not nm.startswith('alloca:')})


def cells(mc, st):
    out = {}
    o = st.objs['self']
    for off, (size, v) in mc.cells.items():
        if isarr(v):
            out[off] = o.zone(off, off + size)[2]
        else:
            out[off] = o.load(off, size)
    return out


class Diff:
    """what differs between the call on a piece and the calls on its bytes"""

    def __init__(self, what, path, got, want):
        self.what, self.path, self.got, self.want = what, path, got, want

    def text(self):
        return '%s: %s in one piece, %s byte by byte, when %s' % (
            self.what, tm.show(self.got)[:250] if self.got is not None else '-', tm.show(self.want)[:250] if self.want is not None else '-',
            ' and '.join(('' if p else 'not ') + tm.show(c)[:120] for c, p in self.path[-4:]) or 'always')


def arrs_equal(a, b, gate, base):
    if a is b:
        return []
    i = var('ix', 64)
    try:
        x, y = ip.m_read(a, i, 1), ip.m_read(b, i, 1)
    except Unsupported:
        return [(base, a, b)]
    if x is y:
        return []
    U = mk('undef', 8, ())
    return th.diff(ite(gate, x, U), ite(gate, y, U), base)


def compare(mc, A, B, base):
    """A, B: (gate, pos, drop, state) ; list of Diff"""
    out = []
    ga, gb = A.gate, B.gate
    U = mk('undef', 64, ())
    for path, x, y in th.diff(ite(ga, C(0), C(1)), ite(gb, C(0), C(1)), base):
        out.append(Diff('panics', path, x, y))
    g = band(ga, gb)
    for path, x, y in th.diff(ite(g, A.pos, U), ite(g, B.pos, U), base):
        out.append(Diff('split', path, x, y))
    if out:
        g = band(g, tm.eq(A.pos, B.pos))
    for path, x, y in th.diff(ite(g, A.drop, U), ite(g, B.drop, U), base):
        out.append(Diff('bytes dropped', path, x, y))
    ca, cb = cells(mc, A.state), cells(mc, B.state)
    for off in sorted(mc.cells):
        x, y = ca[off], cb[off]
        if x is y:
            continue
        if isarr(x) or isarr(y):
            for path, p, q in arrs_equal(x, y, g, base):
                out.append(Diff('state at offset %d' % off, path, p, q))
            continue
        if not isarr(x) and has_heap(x):
            p, q = M.content(x, A.state), M.content(y, B.state)
            if p is None or q is None:
                out.append(Diff('memory at offset %d' % off, [], x, y))
                continue
            for path, p, q in arrs_equal(p, q, g, base):
                out.append(Diff('memory at offset %d' % off, path, p, q))
            continue
        U = mk('undef', x.w, ())
        for path, p, q in th.diff(ite(g, x, U), ite(g, y, U), base):
            out.append(Diff('state at offset %d' % off, path, p, q))
    for nm in mc.arrays:
        if nm.startswith('heap:') and nm in A.state.objs and nm in B.state.objs:
            p, q = A.state.objs[nm].cells[0][1], B.state.objs[nm].cells[0][1]
            for path, p, q in arrs_equal(p, q, g, base):
                out.append(Diff('buffer', path, p, q))
    return out


def atoms_in(v, pred, out, seen):
    for a in tm.atoms_of(v):
        if a in seen:
            continue
        seen.add(a)
        if pred(a):
            out.add(a)


def refine(d, base, top):
    """split over the positions in the piece that symbolic offsets can take; the cases of a difference that remain"""
    return _refine(list(d.path), d.got, d.want, top, 0)


def offsets(lits, vs):
    out = []
    for v in [tm.condv(c) for c, p in lits] + list(vs):
        if not isinstance(v, tm.T):
            continue
        for a in tm.atoms_of(v):
            if a.op == 'rd' and a.args[0] == 'S' and not is_const(a.args[1]) and a.args[1] not in out:
                out.append(a.args[1])
    return out


def small(lits, x, y):
    """is the path excluded for each of the few values of a term it bounds by a small constant"""
    for c, p in lits:
        if p and c.op == 'ult' and is_const(c.args[1]) and cval(c.args[1]) <= 70 and not is_const(c.args[0]):
            o = c.args[0]
            for k in range(cval(c.args[1])):
                e = tm.eq(o, C(k)) if o.w == 64 else None
                if e is None or is_const(e) or e.op != 'ite':
                    break
                el = M.lit(e)
                mp = th.eq_subst([el])
                if not mp:
                    break
                if any(tm.subst(tm.condv(d), mp) is (FALSE if q else TRUE) for d, q in lits):
                    continue
                x2, y2 = tm.subst(x, mp), tm.subst(y, mp)
                if x2 is y2:
                    continue
                break
            else:
                return True
    return False


def _refine(lits, x, y, top, depth):
    if th.infeasible(lits) or (x is not None and x.op != 'ite' and y.op != 'ite' and th.leaf_eq(lits, x, y)):
        return []
    if x is None:
        return [(lits, x, y)]
    mp = th.eq_subst(lits)
    if mp and any(tm.subst(tm.condv(c), mp) is (FALSE if p else TRUE) for c, p in lits if c.op != 'eqz'):
        return []
    if small(lits, x, y):
        return []
    offs = offsets(lits, [x, y])
    for o in offs:
        ks = [k for k in range(top + 1)]
        outside = lits + [M.lit(tm.ult(o, C(top + 1)), False)] if not is_const(tm.ult(o, C(top + 1))) else lits
        if not th.infeasible(outside):
            continue
        out = []
        for k in ks:
            e = tm.eq(o, C(k))
            if e is FALSE:
                continue
            el = [M.lit(e)] if e is not TRUE else []
            if th.infeasible(lits + el):
                continue
            mp = th.eq_subst(el)
            f = lambda v: tm.subst(v, mp) if mp else v
            cond = TRUE
            keep = list(el)
            for c, p in lits:
                v = f(tm.condv(c))
                if v.op == 'ite' and v.args[0] is c:
                    keep.append((c, p))
                    continue
                cond = band(cond, v if p else bnot(v))
            for ls in paths(cond):
                if depth > 6:
                    out.append((keep + ls, f(x), f(y)))
                    continue
                for path, p, q in th.diff(f(x), f(y), keep + ls):
                    out += _refine(path, p, q, top, depth + 1)
                if out and len(out) > 3:
                    return out
        return out
    return [(lits, x, y)]


def has_heap(v):
    while v.op == 'ite':
        v = v.args[1]
    return v.op == 'ptr' and v.args[0].startswith('heap:')


def merge(mc, D, x, y):
    """state x where D, y elsewhere"""
    sx, sy = ({n: o for n, o in s.objs.items() if n not in ('data', 'out') and not n.startswith('alloca:')} for s in (x, y))
    return ip.merge2(D, State(sx), State(sy))


def bytewise(mc, lits, st, r, L, kind):
    """the piece byte by byte up to the first split"""
    out = Call()
    c = feed(mc, lits, st, C(0), tm.add(r, C(1)) if kind == 'fce' else C(1), '#b1', kind)
    if c.dead:
        raise Unsupported('does not return')
    calls = [c]
    out.panics = [(p, l, TRUE) for p, l in c.panics]
    go = prune(band(c.gate, bnot(c.D)), c.base)
    gate, pos, drop = c.gate, c.pos, c.drop
    state = c.state
    conds = []
    for k in range(1, L):
        if go is FALSE:
            break
        base = c.base
        s2 = after(mc, c, go, base)
        d = M.restrict_to(drop, go, base) if k == 1 else M.restrict_to(total, go, base)
        total = d
        if kind == 'fce':
            ln = tm.sub(tm.add(r, C(k + 1)), d)
            off = d
        else:
            ln, off = C(1), C(k)
        c2 = feed(mc, lits, s2, off, ln, '#b%d' % (k + 1), kind)
        if c2.dead:
            raise Unsupported('does not return')
        out.panics += [(p, l, go) for p, l in c2.panics]
        D1 = bnot(go)
        gate = prune(ite(go, c2.gate, gate), base)
        pos = ite(go, c2.pos, pos)
        drop = ite(go, tm.add(d, c2.drop) if kind == 'fce' else ite(c2.D, tm.add(C(k), c2.drop), C(k + 1)), drop)
        state = merge(mc, go, c2.state, state)
        go2 = prune(band(c2.gate, bnot(c2.D)), c2.base)
        c = c2
        total = tm.add(d, c2.drop)
        go = prune(band(go, go2), base)
    out.gate, out.pos, out.drop, out.state = gate, pos, drop, state
    return out


def prune(g, base):
    return M.prune_gate(g, base) if g.op == 'ite' else g


def whole(mc, lits, st, r, L, kind):
    c = feed(mc, lits, st, C(0), tm.add(r, C(L)) if kind == 'fce' else C(L), '#w', kind)
    if c.dead:
        raise Unsupported('does not return')
    return c


def lits_of(mc, R):
    return [l for l in R.base if l not in mc.base]


def bounded(mc, R, L, st=None, r=None, lits=None):
    """differences for a piece of L bytes (0: nothing may happen) from the bound state"""
    kind = mc.kind
    lits = lits_of(mc, R) if lits is None else lits
    r = mc.rexpr if r is None else r
    mk_ = (lambda: mc.state()) if st is None else (lambda: State(dict(st.objs)))
    a = whole(mc, lits, mk_(), r, L, kind)
    if L == 0:
        b = Call()
        b.gate, b.pos, b.drop, b.state, b.panics = TRUE, NONE, C(0), mk_(), []
    else:
        b = bytewise(mc, lits, mk_(), r, L, kind)
    base = a.base
    ds = compare(mc, a, b, base)
    out = []
    for d in ds:
        if isinstance(d.got, tm.T) and (isarr(d.got) or d.got.op in ('ptr',)):
            out.append(d)
            continue
        for path, p, q in refine(d, base, L + 1):
            out.append(Diff(d.what, path, p, q))
    return a, b, base, out


def early(mc, R, k, L):
    """the same from the state after the first k bytes of the stream"""
    global DATA
    pt = mc.peeled
    st, r = pt.states[k], pt.rs[k]
    d = mem('init', 'S')
    if mc.kind == 'fce':
        for j in range(cval(r)):
            d = ip.m_store(d, C(j), 1, pt.bytes[k - cval(r) + j])
    try:
        DATA = d
        return bounded(mc, R, L, st=st, r=r, lits=[])
    finally:
        DATA = None


def variants(c):
    """configurations whose union is c, split where an inductive fact depends on it"""
    if c.alg != 'fastcdc':
        return [c]
    t, mi, no, ma = c.args
    return [M.Cfg(c.alg, c.args, base=c.base + [M.lit(tm.ult(mi, ma))], ctor=c.ctor, periods=c.periods, name=c.name + '[min < max]'),
            M.Cfg(c.alg, [t, mi, mi, mi], base=[], ctor=c.ctor, periods=[mi], name=c.name + '[min = max]')]


# ---------------------------------------------------------------- is a difference feasible in the extracted graph

class Raw(feasible.Side):
    """the extracted one-byte transition graph before its reads are resolved, under valuation"""

    def __init__(self, mc, R, env):
        self.mc, self.R = mc, R
        self.m = self
        self.env = env
        self.n = self.N = 0
        self.hist = []
        i = 1
        while 'p%d' % i in env:
            self.hist.append(env['p%d' % i])
            i += 1
        self.arr, self.acc, self.fwd = {}, {}, []
        v = Val(env, self.rd0)
        for nm, (post, init) in R.arrpost.items():
            self.arr[nm] = self.upd(init, None, v)
        for off in mc.cells:
            if mc.kind_of.get(off) == 'acc':
                self.acc[off] = v(mc.cells[off][1])
        self.ps = [cval(P) for g, P, q in R.env.ring if is_const(P)]

    def fork(self):
        r = Raw.__new__(Raw)
        r.__dict__.update(self.__dict__)
        r.arr, r.acc, r.hist = dict(self.arr), dict(self.acc), list(self.hist)
        return r

    def now(self):
        e = dict(self.env)
        for off, x in self.acc.items():
            e[tm.single(self.mc.hv(off)).args[0]] = x
        e['n'], e['N'] = self.n, self.N
        for P in self.ps:
            e['q%dn' % P], e['q%dN' % P] = self.n % P, self.N % P
        return e

    def rd(self, name, off, w):
        if name == 'S':
            k = off - self.r
            if k >= 1 << 63:
                k -= 1 << 64
            if k < 0:
                return self.hist[k] if -k <= len(self.hist) else 0
            return self.fwd[k] if k < len(self.fwd) else 0
        if name in self.arr:
            x = 0
            for i in range(w // 8):
                x |= self.byte(self.arr[name], off + i) << (8 * i)
            return x
        return feasible.table(self.env, name, off, w)

    def val(self, fwd):
        self.fwd = fwd
        e = self.now()
        self.r = 0
        v = Val(e, self.rd)
        if self.mc.kind == 'fce':
            self.r = v(self.mc.rexpr)
        return v

    def content_(self, post, nm, v):
        return self.upd(post, nm, v)

    def step(self, b):
        """position of the split relative to the byte, or None; 'panic'"""
        v = self.val([b])
        s = self.R.step
        if not v(s.gate):
            return 'panic'
        D = v(s.D)
        idx = v(s.idx) - self.r if D else None
        acc = {off: v(s.post[off]) for off in self.acc}
        arr = {nm: self.upd(post, nm, v) for nm, (post, init) in self.R.arrpost.items() if post is not None}
        self.acc, self.arr = acc, arr
        if D and idx == 0:
            self.n = 0
            return 0
        self.hist.append(b)
        self.N += 1
        self.n = 0 if D else self.n + 1
        return idx

    def run(self, bs):
        for j, b in enumerate(bs):
            x = self.step(b)
            if x == 'panic':
                return 'panic'
            if x is not None:
                return j + x
        return None

    def jump(self, a, bs):
        """the state after the piece bs in one call, whose graph is a; (position or None | 'panic', state)"""
        v = self.val(list(bs))
        if not v(a.gate):
            return 'panic', None
        pos = v(a.pos)
        pos = None if pos == tm.M(64) else pos - self.r
        cs = cells(self.mc, a.state)
        f = self.fork()
        used = len(bs) if pos is None else pos
        f.hist += bs[:used]
        f.N += used
        drop = v(a.drop)
        kept = self.r + used - drop
        want = {}
        for off, x in cs.items():
            k = self.mc.kind_of.get(off)
            if k == 'acc':
                f.acc[off] = v(x)
            elif isarr(x):
                f.arr['self+%d' % off] = self.upd(x, 'self+%d' % off, v)
            elif k in ('ghost', 'param'):
                want[off] = v(x)
            elif k == 'ptr':
                while x.op == 'ite':
                    x = x.args[1] if v(x.args[0]) else x.args[2]
                y = self.mc.cells[off][1]
                if y.op == 'ptr' and y.args[0].startswith('heap:'):
                    c = M.content(x, a.state)
                    if c is None:
                        raise evalt.Unknown('memory')
                    f.arr[y.args[0]] = self.upd(c, y.args[0], v)
        guess = [0 if pos is not None else self.n + used]
        guess += [g for g in range(0, self.n + used + 3) if g not in guess][:400]
        for g in guess:
            f.n = g
            v2 = f.val([])
            if all(v2(self.mc.bind[off]) == x for off, x in want.items()) and (self.mc.kind == 'push' or f.r == kept):
                return pos, f
        raise evalt.Unknown('state')


def unlike(x, y, rnd, ahead, plain=False):
    """do two states go on differently"""
    x, y = x.fork(), y.fork()
    b = (lambda: rnd.randrange(256)) if plain else feasible.bytesrc(rnd)
    for t in range(ahead):
        c = b()
        p, q = x.step(c), y.step(c)
        if p != q:
            return t, p, q
        if p == 'panic':
            return None
        if not t % 64 and x.n == y.n and not differs(x, y):
            return None
    return None


def lively(s, rnd):
    """does the stream split at all in this configuration"""
    s = s.fork()
    for t in range(4000):
        p = s.step(rnd.randrange(256))
        if p == 'panic':
            return False
        if p is not None:
            return True
    return False


def pos_(p):
    return p if p == 'panic' else 'no split' if p is None else 'a split after %d bytes' % p


def confirm(mc, R, a, L, seed=1, budget=20000, hints=()):
    """a valuated reachable state and a piece of L bytes on which the one call and the calls on its bytes differ, or None"""
    rnd = __import__('random').Random(seed)
    A = feasible_model(mc, R)
    vs = feasible.cfgvars(A)
    steps = tries = 0
    long, many = 6, 12        # runs far ahead, states tried with many continuations
    while steps < budget and tries < 300:
        tries += 1
        env = feasible.config_env(A.cfgbase, vs, rnd, rnd.choice(hints) if hints and rnd.random() < .5 else None)
        if env is None:
            break
        src = feasible.bytesrc(rnd)
        try:
            s = Raw(mc, R, env)
            for t in range(rnd.choice((40, 40, 40, 40, 300))):
                bs = [src() for _ in range(L)]
                b = s.fork()
                want = b.run(bs)
                steps += L
                try:
                    got, f = s.jump(a, bs)
                except evalt.Unknown:
                    got, f = want, None
                if got != want:
                    return env, t, bs, 'one call finds %s, the calls on its bytes %s' % (pos_(got), pos_(want))
                if want == 'panic':
                    break
                if f is not None and differs(f, b):
                    plan = [300] * 3
                    if many and t > 3:
                        many -= 1
                        plan = [300] * 50
                    elif long and t > 3 and lively(s, rnd):
                        long -= 1
                        plan = [300, 15000]
                    for k, ahead in enumerate(plan):
                        w = unlike(f, b, rnd, ahead, k > 2)
                        steps += ahead if len(plan) == 3 else 0
                        if w:
                            return env, t, bs, 'after it the chunkers differ %d bytes later: %s against %s' % (w[0] + 1, w[1], w[2])
                s.step(bs[0] if bs else src())
        except evalt.Unknown:
            continue
    return None


def differs(f, b):
    return f.acc != b.acc or f.n != b.n or any(f.arr[k][2] != b.arr[k][2] or f.arr[k][:2] != b.arr[k][:2] for k in f.arr)


def feasible_model(mc, R):
    class A:
        pass
    A.cfgargs = [x for x in mc.c.args if x.op == 'poly']
    A.accs = {off: (8 * mc.cells[off][0], mc.cells[off][1], None) for off in mc.cells if mc.kind_of.get(off) == 'acc'}
    A.cfgbase = list(mc.c.base)
    return A
