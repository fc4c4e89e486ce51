"""Valuation of value-graph terms: used only to tell two normal forms apart (a valuation that satisfies the
literals of a path and gives the two leaves different values is a certificate that an obligation fails)."""
import math, random, struct
from . import terms as tm
from .terms import M
from .interp import GDATA, BITS


class Unknown(Exception):
    pass


class Val:
    """a valuation: variables by name, reads by function"""

    def __init__(self, env, rd=None):
        self.env, self.rd = env, rd
        self.memo = {}

    def __call__(self, t):
        r = self.memo.get(t.id)
        if r is None:
            r = self.memo[t.id] = self.ev(t)
        return r

    def ev(self, t):
        op, w, a = t.op, t.w, t.args
        if op == 'poly':
            r = a[0]
            for mono, k in a[1]:
                x = k
                for f in mono:
                    x *= self(f)
                r += x
            return r & M(w)
        if op == 'ite':
            return self(a[1]) if self(a[0]) else self(a[2])
        if op == 'var':
            if a[0] not in self.env:
                raise Unknown('variable %s' % a[0])
            return self.env[a[0]]
        if op == 'rd':
            if self.rd is None:
                raise Unknown('read')
            return self.rd(a[0], self(a[1]), w) & M(w)
        if op == 'tbl':
            off = self(a[1])
            from .interp import gread
            v = gread(a[0], tm.const(off, 64), w // 8)
            return v.args[0]
        if op == 'bw':
            r = 0
            for pr, m in a[0]:
                x = m
                for q in pr:
                    x &= self(q)
                r ^= x
            return r
        if op == 'zext':
            return self(a[0])
        if op == 'sext':
            x = self(a[0])
            s = a[0].w
            return (x | (M(w) & ~M(s))) if x >> (s - 1) else x
        if op == 'trunc':
            return self(a[0]) & M(w)
        if op == 'pow2':
            s = self(a[0])
            return (1 << s) & M(w) if s < 4096 else 0
        if op == 'lshr':
            k = self(a[1])
            return self(a[0]) >> k if k < w else 0
        if op == 'ashr':
            x, k = self(a[0]), self(a[1])
            if x >> (w - 1):
                x -= 1 << w
            return (x >> min(k, w)) & M(w)
        if op == 'rotl':
            x, k = self(a[0]), self(a[1]) % w
            return ((x << k) | (x >> (w - k))) & M(w) if k else x
        if op == 'urem':
            x, y = self(a[0]), self(a[1])
            if y == 0:
                raise Unknown('rem 0')
            return x % y
        if op == 'udiv':
            x, y = self(a[0]), self(a[1])
            if y == 0:
                raise Unknown('div 0')
            return x // y
        if op == 'ctlz':
            return a[0].w - self(a[0]).bit_length()
        if op == 'eqz':
            return int(self(a[0]) == 0)
        if op in ('ult', 'xult'):
            return int(self(a[0]) < self(a[1]))
        if op in ('slt', 'xslt'):
            x, y = self(a[0]), self(a[1])
            s = a[0].w
            x -= (x >> (s - 1)) << s
            y -= (y >> (s - 1)) << s
            return int(x < y)
        if op == 'xeq':
            return int(self(a[0]) == self(a[1]))
        if op == 'mulov':
            return int(self(a[0]) * self(a[1]) > M(a[0].w))
        if op == 'fp':
            return self.fp(a)
        if op == 'uf' and a[0].startswith('fptoui'):
            x = self(a[1])
            if x != x:
                return 0
            if not 0 <= x <= M(w):
                if '.sat' not in a[0]:
                    raise Unknown('float conversion')
                return 0 if x < 0 else M(w)
            return int(x)
        if op == 'uf' and a[0] in BITS:
            return BITS[a[0]](self(a[1]), w)
        raise Unknown(op)

    def fp(self, a):
        if len(a) == 1:
            t = str(a[0])
            if t.startswith('0x'):
                return struct.unpack('>d', bytes.fromhex(t[2:].rjust(16, '0')))[0]
            return float(t)
        n, x = a[0], self(a[1])
        if n == 'uitofp':
            return float(x)
        if len(a) == 2 and n.startswith('log2'):
            return math.log2(x) if x > 0 else float('-inf') if x == 0 else float('nan')
        if len(a) == 2 and n.startswith('floor'):
            return float(math.floor(x))
        if len(a) == 3:
            y = self(a[2])
            if n == 'fmul':
                return x * y
            if n == 'fadd':
                return x + y
            if n == 'fsub':
                return x - y
            if n == 'fdiv' and y:
                return x / y
        raise Unknown('float ' + str(n))


def vars_of(ts):
    """variables (T) and whether reads occur"""
    seen, out, st = set(), {}, list(ts)
    while st:
        t = st.pop()
        if t.id in seen:
            continue
        seen.add(t.id)
        if t.op == 'var':
            out[t.args[0]] = t
        flat(t.args, st)
    return out


def flat(a, st):
    for x in a:
        if isinstance(x, tm.T):
            st.append(x)
        elif isinstance(x, tuple):
            flat(x, st)


def pick(rnd, lo, hi, w):
    k = rnd.random()
    if k < .3:
        return min(hi, lo + rnd.randrange(0, 4))
    if k < .6:
        return min(hi, lo + rnd.randrange(0, 70))
    if k < .7:
        return max(lo, hi - rnd.randrange(0, 3))
    if k < .8:
        return min(hi, max(lo, 1 << rnd.randrange(0, w)))
    return rnd.randint(lo, hi)


def holds(lits, v):
    for c, p in lits:
        if bool(v(c)) != p:
            return False
    return True


PREF = {'avg': [10, 10, 10, 11, 14], 'bits': [0, 1, 2, 3, 4, 5, 8, 16], 'l': [1, 2, 3, 4, 5, 13, 31], 'mask': [0, 1, 3, 5, 7, 15, 0x11],
        'm': [1, 2, 3, 5, 16, 64, 256], 't': [1 << 20, 1 << 21, 5 << 20], 'k': [1, 2, 3, 4, 5, 31, 32, 33, 40], 'w': [1, 2, 3, 4, 5, 8, 16, 64]}


def subpolys(t, out, seen):
    """polys inside a comparison that contain a free accumulator with an odd coefficient"""
    st = [t]
    while st:
        x = st.pop()
        if x.id in seen:
            continue
        seen.add(x.id)
        if x.op == 'poly':
            for mono, k in x.args[1]:
                if len(mono) == 1 and (mono[0].op == 'var' and isacc(mono[0].args[0]) or mono[0].op == 'rd' and mono[0].args[0] == 'table'):
                    out.append((x, mono[0], k))
        flat(x.args, st)


def isacc(nm):
    return nm.startswith('spec.') or '+' in nm or nm == 'byte'


def repair(lits, env, rd, rnd, tab):
    """choose accumulators so that masked equalities and upper bounds of the context hold"""
    used = set()
    for c, p in lits:
        try:
            if bool(Val(env, rd)(c)) == p:
                continue
        except Unknown:
            return
        ps = []
        subpolys(c, ps, set())
        ps.sort(key=lambda x: (x[2] & 1 == 0, x[1].op == 'var' and isbyte(x[1]), -x[0].w))
        for poly, a, k in ps:
            if a in used:
                continue
            w = poly.w
            if a.w != w:
                continue
            if c.op == 'eqz':
                v0, v1 = Val(env, rd), Val(env, rd)
                v0.memo[poly.id], v1.memo[poly.id] = 0, M(w)
                x = c.args[0]
                if x is poly:
                    t = 0 if p else rnd.getrandbits(w)
                else:
                    z0, z1 = v0(x), v1(x)
                    t = 0
                    for b in range(w):
                        if not z0 >> b & 1:
                            t |= (rnd.getrandbits(1) if not z1 >> b & 1 else 0) << b
                        elif not z1 >> b & 1:
                            t |= 1 << b
                    if not p:
                        t = rnd.getrandbits(w)
            elif c.op == 'ult':
                l, r = c.args
                v = Val(env, rd)
                if l is poly:
                    hi = v(r)
                    t = rnd.randrange(hi) if p and hi else rnd.randint(hi, M(w))
                elif r is poly:
                    lo = v(l)
                    t = rnd.randint(min(lo + 1, M(w)), M(w)) if p else rnd.randint(0, lo)
                else:
                    continue
            else:
                continue
            rest = Val(env, rd)(tm.p_sub(poly, tm.p_scale(tm.atomv(a), k)))
            j = (k & -k).bit_length() - 1
            t = t >> j << j | rest & ((1 << j) - 1)
            z = ((t - rest & M(w)) >> j) * pow(k >> j, -1, 1 << w) & M(w)
            if a.op == 'rd':
                tab[(a.args[0], Val(env, rd)(a.args[1]), w)] = z
                used.add(a)
                break
            hi = a.args[2] if a.args[2] is not None else M(w)
            if not a.args[1] <= z <= hi:
                continue
            env[a.args[0]] = z
            used.add(a)
            break


def isbyte(a):
    return a.args[0] == 'byte'


def sample(ts, lits, seed=1, tries=3000, fixed=None):
    """valuations satisfying lits, by guided random choice: equalities of the context are solved first"""
    from . import theory as th
    mp = th.eq_subst(lits)
    vs = vars_of(list(ts) + [c for c, p in lits] + [x for x in mp.values() if isinstance(x, tm.T)])
    for c, p in lits:
        pass
    rnd = random.Random(seed)
    for k in range(tries):
        env = {}
        for nm, t in vs.items():
            lo, hi = t.args[1], t.args[2]
            if hi is None:
                hi = M(t.w)
            env[nm] = pick(rnd, lo, hi, t.w)
            if nm in PREF and rnd.random() < .7:
                env[nm] = min(hi, max(lo, rnd.choice(PREF[nm])))
        # orderings: move variables close to one another now and then
        if fixed:
            env.update(fixed)
        names = [n for n in vs if vs[n].w == 64]
        for _ in range(rnd.randrange(0, 4)):
            if len(names) > 1:
                x, y = rnd.sample(names, 2)
                if fixed and x in fixed:
                    x, y = y, x
                z = env[y] + rnd.choice((-2, -1, -1, 0, 0, 1, 1, 2))
                lo, hi = vs[x].args[1], vs[x].args[2]
                if lo <= z <= (hi if hi is not None else M(64)):
                    env[x] = z
        tab = {}
        r2 = random.Random(rnd.random())

        def rd(name, off, w, tab=tab, r2=r2):
            key = (name, off, w)
            if key not in tab:
                tab[key] = r2.randrange(1 << min(w, 8)) if w == 8 else r2.getrandbits(w)
            return tab[key]
        v = Val(env, rd)
        try:
            # solve equalities by substitution
            for a, rhs in mp.items():
                if a.op == 'var':
                    z = Val(env, rd)(rhs)
                    lo, hi = a.args[1], a.args[2]
                    if lo <= z <= (hi if hi is not None else M(a.w)):
                        env[a.args[0]] = z
            repair(lits, env, rd, rnd, tab)
            v = Val(env, rd)
            if holds(lits, v):
                yield env, tab, v
        except Unknown:
            return


def apart(lits, a, b, seed=1, tries=3000):
    """a valuation on the path lits under which a and b differ, or None"""
    for env, tab, v in sample([a, b], lits, seed, tries):
        try:
            if v(a) != v(b):
                return env, tab
        except Unknown:
            return None
    return None
