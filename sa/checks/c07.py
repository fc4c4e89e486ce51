"""C07: rolling hashes forget bytes that left the window."""
import copy
import random
from .. import algo, prove, model, feasible, evalt, valued, terms as tm, theory as th, machine as M
from ..evalt import Unknown
from ..interp import paths
from ..terms import bnot, band, bor, TRUE, FALSE, ite, is_const, cval, mk, var, const
from ..machine import n_, C, leaves_of, b_

ADD = {'bup', 'gzip', 'zstd'}
XOR = {'buzt', 'buzb', 'buzs'}


class No(Exception):
    def __init__(self, text, mm=None):
        Exception.__init__(self, text)
        self.mm = mm        # (path, one side, the other side) of a failed equality


def check(rep):
    rep.rule = ('windowed hashes: the influence of a byte, propagated symbolically through the extracted update for as many steps as the window is long, '
                'cancels exactly against the term that removes it, in every state update and in the decision, for every window length; shift-based hashes: '
                'bit j of the updated hash depends on bits below j of the old one only')
    for it in algo.every(algs=['bup', 'gzip', 'zstd', 'buzt', 'buzb', 'buzs', 'gear', 'fastcdc', 'pigz']):
        nm = 'forgets: ' + it.name
        if it.err:
            rep.undecided(nm, it.err, it.where)
            continue
        rep.count(transition_functions=1)
        with rep.item(nm, it.where):
            try:
                if it.c.alg in ADD:
                    d = additive(it)
                elif it.c.alg in XOR:
                    d = cyclic(it)
                else:
                    d = shift(it)
                rep.held(nm, d, it.where)
                continue
            except No as e:
                why = str(e)
                hints = near(it, e) + sizes(it)
            w = influence(it, 150000 if rep.tier == 'quick' else 1000000, hints)
            if w:
                rep.violation(nm, '%s; %s' % (why, w), it.where, key=nm.replace(' ', '_'))
            else:
                rep.undecided(nm, why, it.where)


def window(it):
    a = it.c.args
    return C(32) if it.c.alg == 'zstd' else a[-3] if it.c.alg in XOR else a[0]


def leaves(A, v, cond):
    """leaves of v under cond (and normal return)"""
    lv = []
    leaves_of(ite(band(A.gate, cond), v, mk('undef', v.w, ())), [], lv)
    return [(ls, x) for ls, x in lv if x.op != 'undef' and not th.infeasible(A.base + ls)]


def regimes(it):
    w = window(it)
    if it.c.alg == 'zstd':
        return [('steady', TRUE, True)]
    return [('filling', tm.ult(n_, w), False), ('steady', bnot(tm.ult(n_, w)), True)]


def coeff(p, atom):
    """coefficient (a leaf value) of an atom that occurs linearly in p, or None"""
    out = const(0, p.w)
    for mono, k in p.args[1]:
        c = sum(1 for f in mono if f is atom)
        if c == 0:
            if any(atom in inside(f) for f in mono):
                return None
            continue
        if c > 1:
            return None
        rest = list(mono)
        rest.remove(atom)
        if any(atom in inside(f) for f in rest):
            return None
        t = const(k, p.w)
        for f in rest:
            t = tm.p_mul(t, tm.atomv(f))
        out = tm.p_add(out, t)
    return out


def inside(f):
    return tm.atoms_of(tm.atomv(f)) if f.op not in ('var',) else {f}


def additive(it):
    A, w = it.A, window(it)
    keys = list(A.accs)
    W = set(A.accs[k][0] for k in keys)
    if len(W) != 1:
        raise No('accumulators of different widths')
    W = W.pop()
    if A.arrs:
        raise No('unbounded memory of the past')
    X = {k: tm.single(A.accs[k][2]) for k in keys}
    zb = tm.single(tm.zext(b_, W))
    lw = tm.single(M.lag(w))
    zl = tm.single(tm.zext(tm.atomv(lw), W))
    Am = f = g = None
    for name, cond, steady in regimes(it):
        for i, k in enumerate(keys):
            for ls, x in leaves(A, A.post[k], band(cond, bnot(A.D))):
                for a in tm.atoms_of(x):
                    if a.op == 'rd' and a.args[0] != 'lag' or a.op == 'rd' and (a is not lw or not steady):
                        raise No('the update of %s reads %s while %s' % (k, tm.show(tm.atomv(a)), name))
                row = [coeff(x, X[j]) for j in keys]
                fb, gl = coeff(x, zb), coeff(x, zl)
                if None in row or fb is None or gl is None:
                    raise No('the update of %s is not linear: %s' % (k, tm.show(x)[:200]))
                key = (k, steady)
                if Am is None:
                    Am, f, g = {}, {}, {}
                if k in f and (f[k] is not fb or Am[k] != row):
                    raise No('the update of %s differs between the filling and the steady window' % k)
                f[k], Am[k] = fb, row
                if steady:
                    if k in g and g[k] is not gl:
                        raise No('the byte leaving the window is removed in different ways')
                    g[k] = gl
    if f is None or set(f) != set(keys) or set(g) != set(keys):
        raise No('no steady update found')
    # the influence of one byte after w-1 steps
    wv = w
    if is_const(w):
        inf = [f[k] for k in keys]
        for s in range(cval(w) - 1):
            inf = mul(Am, keys, inf)
    else:
        N1 = {k: [tm.p_sub(a, const(1 if j == k else 0, W)) for a, j in zip(Am[k], keys)] for k in keys}
        v0 = [f[k] for k in keys]
        v1 = mul(N1, keys, v0)
        v2 = mul(N1, keys, v1)
        if any(not (is_const(x) and cval(x) == 0) for x in v2):
            raise No('powers of the update have no closed form')
        wm = tm.sub(tm.trunc(w, W), const(1, W)) if W < 64 else tm.sub(w, C(1))
        inf = [tm.p_add(a, tm.p_mul(wm, b)) for a, b in zip(v0, v1)]
    out = [tm.p_add(x, g[k]) for k, x in zip(keys, mul(Am, keys, inf))]
    for k, x in zip(keys, out):
        if not (is_const(x) and cval(x) == 0):
            raise No('%s of a byte that left the window remains in the state cell %s' % (tm.show(x), k), (A.base, x, const(0, x.w)))
    # the decision and all updates are invariant under a change of the byte that leaves
    d = var('delta', W)
    sub = {X[k]: tm.p_add(tm.atomv(X[k]), tm.p_mul(x, d)) for k, x in zip(keys, inf)}
    sub[zl] = tm.p_add(tm.atomv(zl), d)

    def mp(t):
        return sub.get(t)
    invariant(it, mp, regimes(it)[-1][1], lw)
    return 'f, A and g satisfy A^w f + g = 0 over %d-bit words for all window lengths; decision and %d updates invariant' % (W, len(keys))


def mul(Am, keys, v):
    out = []
    for k in keys:
        s = const(0, v[0].w)
        for a, x in zip(Am[k], v):
            s = tm.p_add(s, tm.p_mul(a, x))
        out.append(s)
    return out


def invariant(it, mp, cond, lw):
    A = it.A
    for what, v in [('the decision', A.D)] + [('the state cell %s' % k, A.post[k]) for k in A.accs]:
        U = mk('undef', v.w, ())
        c = band(A.gate, cond)
        x = ite(c, v, U)
        y = tm.subst(x, mp)
        for path, p, q in th.diff(x, y, A.base):
            raise No('%s still depends on the byte that leaves the window: %s, when %s' % (
                what, tm.show(p)[:200], ' and '.join(('' if b else 'not ') + tm.show(c)[:100] for c, b in path[-3:])), (path, p, q))
        # other look-backs
    for v in [A.D] + list(A.post.values()):
        for a in tm.atoms_of(v):
            if a.op == 'rd' and a.args[0] == 'lag' and a is not lw and th.diff(a.args[1], lw.args[1], A.base):
                if not (is_const(a.args[1]) and cval(a.args[1]) == 0):
                    raise No('a byte at another distance is read: %s' % tm.show(tm.atomv(a)))


def cyclic(it):
    A, w = it.A, window(it)
    if len(A.accs) != 1 or A.arrs:
        raise No('more state than one hash')
    (k,) = A.accs
    W = A.accs[k][0]
    H = tm.single(A.accs[k][2])
    lw = tm.single(M.lag(w))
    bv = tm.single(b_)
    d = var('delta', W)
    T = {}
    for ls, x in leaves(A, A.post[k], bnot(A.D)):
        for a in tm.atoms_of(x):
            if a.op == 'rd' and a.args[0] not in ('lag',):
                ins = tm.atoms_of(a.args[1])
                if lw in ins:
                    T.setdefault('old', set()).add(a)
                elif bv in ins:
                    T.setdefault('new', set()).add(a)
                else:
                    raise No('unexpected table read %s' % tm.show(tm.atomv(a)))
    if len(T.get('new', ())) != 1 or len(T.get('old', ())) != 1:
        raise No('the byte hash is not applied once to the new and once to the leaving byte')
    (tn,), (to,) = T['new'], T['old']
    # the same function of both bytes
    if tm.subst(tm.atomv(tn), lambda t: M.lag(w) if t is bv else None) is not tm.atomv(to):
        raise No('new and leaving bytes are hashed differently: %s and %s' % (tm.show(tm.atomv(tn)), tm.show(tm.atomv(to))))
    # a change of the new byte changes the hash by exactly the change of its table value, in both regimes
    for name, cond, steady in regimes(it):
        for ls, x in leaves(A, A.post[k], band(cond, bnot(A.D))):
            y = tm.subst(x, lambda t: tm.xor_(tm.atomv(t), d) if t is tn else None)
            if th.diff(y, tm.xor_(x, d), A.base + ls):
                raise No('the new byte is not mixed in by exclusive or: %s' % tm.show(x)[:200])
            y = tm.subst(x, lambda t: tm.xor_(tm.atomv(t), d) if t is H else None)
            if th.diff(y, tm.xor_(x, tm.rotl(d, const(1, W))), A.base + ls):
                raise No('the hash is not rotated by one: %s' % tm.show(x)[:200])
            if not steady and lw in tm.atoms_of(x):
                raise No('the leaving byte is removed before the window is full')
    km1 = tm.and_(tm.sub(tm.trunc(w, W), const(1, W)), const(W - 1, W))
    dh = tm.rotl(d, km1)

    def mp(t):
        if t is H:
            return tm.xor_(tm.atomv(H), dh)
        if t is to:
            return tm.xor_(tm.atomv(to), d)
        return None
    invariant(it, mp, regimes(it)[-1][1], lw)
    return 'new bytes enter unrotated, the hash rotates by one per byte, and the byte leaving after k is removed rotated by k mod 32, for every k'


LOOSE, STRICT, INDEP = 2, 1, 0


def level(t, H, memo):
    """how bit j of t depends on the bits of H: INDEP, STRICT (bits below j), LOOSE (bits up to j), None otherwise"""
    r = memo.get(t.id)
    if r is None:
        r = memo[t.id] = (lv(t, H, memo),)
    return r[0]


def up(a, b):
    if a is None or b is None:
        return None
    return max(a, b)


def lv(t, H, memo):
    if t is H:
        return LOOSE
    if t.op == 'poly':
        r = INDEP
        for mono, k in t.args[1]:
            m = INDEP
            for f in mono:
                m = up(m, level(f, H, memo))
            if m == LOOSE and k % 2 == 0:
                m = STRICT
            r = up(r, m)
        return r
    if t.op == 'bw':
        r = INDEP
        for pr, m in t.args[0]:
            for q in pr:
                r = up(r, level(q, H, memo))
        return r
    if t.op in ('trunc', 'zext'):
        return level(t.args[0], H, memo)
    if t.op == 'var':
        return INDEP
    st = [x for x in flatargs(t.args)]
    for x in st:
        if level(x, H, memo) != INDEP:
            return None
    return INDEP


def flatargs(a):
    for x in a:
        if isinstance(x, tm.T):
            yield x
        elif isinstance(x, tuple):
            yield from flatargs(x)


def shift(it):
    A = it.A
    if len(A.accs) != 1 or A.arrs:
        raise No('more state than one hash')
    (k,) = A.accs
    W, init, hv = A.accs[k]
    H = tm.single(hv)
    memo = {}
    same, mixed = 0, 0
    for ls, x in leaves(A, A.post[k], bnot(A.D)):
        for c, p in ls:
            for y in flatargs(c.args):
                l = level(y, H, memo)
                if l not in (INDEP, STRICT):
                    raise No('a condition depends on the highest bit of the old hash: %s' % tm.show(c)[:200])
        if x is hv:
            same += 1
            if it.c.alg != 'fastcdc' or not th.entails(A.base + ls, tm.ult(n_, it.c.args[1])):
                raise No('the hash is kept unchanged when %s' % ' and '.join(('' if p else 'not ') + tm.show(c)[:100] for c, p in ls[-3:]))
            continue
        l = level(x, H, memo)
        if l not in (INDEP, STRICT):
            raise No('the update is not shifting: %s' % tm.show(x)[:300])
        if l == STRICT:
            mixed += 1
        if same and it.c.alg == 'fastcdc' and not th.entails(A.base + ls, bnot(tm.ult(n_, it.c.args[1]))):
            raise No('bytes below the minimum are hashed in part')
    for v in [A.D, A.after]:
        for a in tm.atoms_of(v):
            if a.op == 'rd' and a.args[0] == 'lag':
                raise No('look-back read %s' % tm.show(tm.atomv(a)))
            if a.op in ('eqz', 'ult', 'slt', 'xult', 'xeq', 'xslt'):
                for y in flatargs(a.args):
                    if level(y, H, memo) not in (INDEP, STRICT):
                        raise No('the decision depends on the highest bit of the old hash: %s' % tm.show(a)[:200])
    for c in conds(A.D):
        for y in flatargs(c.args):
            if level(y, H, memo) not in (INDEP, STRICT):
                raise No('the decision depends on the highest bit of the old hash: %s' % tm.show(c)[:200])
    return '%d updates shift the %d-bit hash strictly upwards%s' % (mixed, W, ', %d keep the initial value below the minimum' % same if same else '')


def conds(v, seen=None):
    seen = set() if seen is None else seen
    if v.op == 'ite' and v.id not in seen:
        seen.add(v.id)
        yield v.args[0]
        yield from conds(v.args[1], seen)
        yield from conds(v.args[2], seen)


# ---------------------------------------------------------------- feasibility of a failed cancellation

def near(it, e):
    """parameter values for which the failed equality fails"""
    if e.mm is None:
        return []
    path, p, q = e.mm
    out = []
    vs = feasible.cfgvars(it.A)
    rnd = random.Random(4)
    for k in range(3000):
        env = {}
        n = 0
        try:
            for env, tab, v in evalt.sample([p, q], list(path), 5 + k, 400):
                n += 1
                if v(p) != v(q):
                    h = {a: b for a, b in env.items() if a in vs}
                    if h and h not in out and (it.c.alg not in XOR or h.get('k', 0) < 600):
                        out.append(h)
                if n > 8:
                    break
        except (Unknown, AttributeError):
            break
        if len(out) > 5 or k > 20:
            break
    return out


def sizes(it):
    """windows beyond the constants the call tests, with few splits"""
    ks, bs = valued.harvest(it.c.alg, it.kind)
    out = []
    for x in valued.near(ks):
        if 3 < x < 600:
            for y in (x, x + 1, x + 7, x + 29):
                out.append({'w': y, 'k': y, 'm': 40, 'mask': (0x3f, 0xff, 0x3ff)[(x + y) % 3], 'max': 1 << 40})
    return out


def influence(it, budget, hints=()):
    """two histories that differ in one byte which left the window without a split, and decide differently"""
    A = it.A
    alg = it.c.alg
    rnd = random.Random(11)
    vs = feasible.cfgvars(A)
    steps = tries = 0
    while steps < budget and tries < 600:
        tries += 1
        env = feasible.config_env(A.cfgbase, vs, rnd, rnd.choice(hints) if hints and rnd.random() < .6 else None)
        if env is None:
            return None
        w = env_window(it, env)
        if w is None or w > 600:
            continue
        try:
            a, b = feasible.Side(A, env), feasible.Side(A, env)
            at = rnd.randrange(0, 40)
            x = y = None
            bad = False
            for t in range(at):
                z = rnd.randrange(256)
                ra, rb = a.step(z), b.step(z)
                if ra == 'panic' or ra[0] and not ra[1]:
                    bad = True
                    break
            if bad:
                continue
            y = rnd.randrange(256)
            z = rnd.randrange(256)
            ra, rb = a.step(z), b.step(y)
            if ra == 'panic' or rb == 'panic' or ra[0] or rb[0]:
                continue
            T = rnd.choice((40, 40, 400, 20000)) + w
            if alg == 'zstd':
                T = w + 40
            for t in range(T):
                z = rnd.randrange(256)
                steps += 2
                ra, rb = a.step(z), b.step(z)
                if ra == 'panic' or rb == 'panic':
                    break
                if t >= w - 1:
                    if ra != rb:
                        return 'with %s, a byte %d back changes the decision from "%s" to "%s"' % (feasible.conf(env), t + 1, feasible.res(ra), feasible.res(rb))
                    if alg == 'zstd' and any((a.acc[q] ^ b.acc[q]) & 0xfffff for q in a.acc):
                        return 'a byte %d back still changes the low 20 bits of the hash' % (t + 1)
                    if all(a.acc[q] == b.acc[q] for q in a.acc) and alg != 'zstd' and t > w + 40:
                        break
                if ra[0] or rb[0]:
                    break
        except Unknown:
            continue
    return None


def env_window(it, env):
    if it.c.alg in ('gear', 'pigz'):
        return 32
    if it.c.alg == 'fastcdc':
        return 64
    v = evalt.Val(env, None)
    return v(window(it))
