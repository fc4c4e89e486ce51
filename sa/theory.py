"""Integer linear reasoning over guard contexts (a small polyhedral domain with exact emptiness by
Fourier-Motzkin elimination and integer tightening).  Used to discard infeasible gates and to compare
leaves under a gate."""
from math import gcd
from . import terms as tm
from .terms import M, is_const, cval, rng, rng_atom, single

_cache = {}
STAT = {'queries': 0}


class Sys:
    def __init__(self):
        self.cons = []      # (dict, const) : sum + const >= 0
        self.vars = set()
        self.seen = set()


def fm(cons):
    """True if the system of  sum(c*x)+k >= 0  is infeasible over the integers (sound, incomplete)"""
    cur = {}
    for d, k in cons:
        r = norm(d, k)
        if r is None:
            continue
        if r is False:
            return True
        key, kk = r
        if key not in cur or cur[key] > kk:
            cur[key] = kk
    for _ in range(60):
        # direct contradiction between opposite rows is found by elimination
        if not cur:
            return False
        cnt = {}
        for key in cur:
            for v, c in key:
                p, n = cnt.get(v, (0, 0))
                cnt[v] = (p + 1, n) if c > 0 else (p, n + 1)
        # choose variable
        best = None
        for v, (p, n) in cnt.items():
            cost = p * n - p - n
            if best is None or cost < best[0]:
                best = (cost, v)
        v = best[1]
        pos, neg, rest = [], [], {}
        for key, kk in cur.items():
            c = dict(key).get(v)
            if c is None:
                rest[key] = kk
            elif c > 0:
                pos.append((dict(key), kk, c))
            else:
                neg.append((dict(key), kk, -c))
        for d1, k1, c1 in pos:
            for d2, k2, c2 in neg:
                d = {}
                for x, c in d1.items():
                    d[x] = d.get(x, 0) + c * c2
                for x, c in d2.items():
                    d[x] = d.get(x, 0) + c * c1
                r = norm(d, k1 * c2 + k2 * c1)
                if r is None:
                    continue
                if r is False:
                    return True
                key, kk = r
                if key not in rest or rest[key] > kk:
                    rest[key] = kk
        cur = rest
        if len(cur) > 1500:
            return False
    return False


def norm(d, k):
    d = {x: c for x, c in d.items() if c}
    if not d:
        return None if k >= 0 else False
    g = 0
    for c in d.values():
        g = gcd(g, c)
    if g > 1:
        d = {x: c // g for x, c in d.items()}
        k = k // g      # floor: integer tightening
    return (tuple(sorted(d.items())), k)


def lin(p):
    """ideal-integer reading of a poly leaf: (dict, const)"""
    half = 1 << (p.w - 1)
    full = 1 << p.w
    d = {}
    k = p.args[0]
    if k >= half and p.args[1]:
        k -= full
    for mono, c in p.args[1]:
        if c >= half:
            c -= full
        d[mono] = d.get(mono, 0) + c
    return d, k


class Ctx:
    def __init__(self, lits):
        self.cons = []
        self.monos = {}
        self.todo = list(lits)
        self.neqs = []
        self.pend = []
        self.bad = False

    def key(self, mono):
        ids = tuple(a.id for a in mono)
        if ids not in self.monos:
            self.monos[ids] = mono
            self.fact(mono, ids)
        return ids

    def form(self, p, pos=True):
        """linear form of a poly; zext atoms are looked through when their argument is range-exact"""
        d, k = lin(p)
        out = {}
        for mono, c in d.items():
            if len(mono) == 1 and mono[0].op == 'zext' and exact(mono[0].args[0]):
                d2, k2 = self.form(mono[0].args[0])
                for x, c2 in d2.items():
                    out[x] = out.get(x, 0) + c * c2
                k += c * k2
            else:
                i = self.key(mono)
                out[i] = out.get(i, 0) + c
        return out, k

    def add(self, d, k):
        self.cons.append((d, k))

    def fact(self, mono, i):
        lo = hi = 1
        for a in mono:
            l, h = rng_atom(a)
            lo *= l
            hi *= h
        self.add({i: 1}, -lo)
        self.add({i: -1}, hi)
        if len(mono) == 1:
            a = mono[0]
            if a.op == 'urem':
                x, b = a.args
                self.pend.append(('urem', a, i))
                if rng(b)[0] >= 1 and exact(b):
                    d, k = self.form(b)
                    d = dict(d)
                    d[i] = d.get(i, 0) - 1
                    self.add(d, k - 1)
                if exact(x):
                    d, k = self.form(x)
                    d = dict(d)
                    d[i] = d.get(i, 0) - 1
                    self.add(d, k)
            elif a.op in ('lshr', 'udiv') and exact(a.args[0]):
                d, k = self.form(a.args[0])
                d = dict(d)
                d[i] = d.get(i, 0) - 1
                self.add(d, k)
            elif a.op == 'bw' and len(a.args[0]) == 1:
                for q in a.args[0][0][0]:
                    if exact(q):
                        d, k = self.form(q)
                        d = dict(d)
                        d[i] = d.get(i, 0) - 1
                        self.add(d, k)

    def ok(self, p):
        """is the ideal reading of p the actual unsigned value, in this context?"""
        if exact(p):
            return True
        d, k = self.form(p)
        hi = k
        for x, c in d.items():
            l, h = 1, 1
            for a in self.monos[x]:
                al, ah = rng_atom(a)
                l *= al
                h *= ah
            hi += c * h if c > 0 else c * l
        if hi > M(p.w):
            if not fm(self.cons + [(d, k - (1 << p.w))]):
                return False
        return fm(self.cons + [({x: -c for x, c in d.items()}, -k - 1)])

    def assume(self, cond, pol):
        """returns True if absorbed, False if postponed"""
        if cond.op == 'ult':
            a, b = cond.args
            if not (self.ok(a) and self.ok(b)):
                return False
            (da, ka), (db, kb) = self.form(a), self.form(b)
            d = dict(db)
            for x, c in da.items():
                d[x] = d.get(x, 0) - c
            k = kb - ka
            if pol:
                self.add(d, k - 1)
            else:
                self.add({x: -c for x, c in d.items()}, -k)
            return True
        if cond.op == 'eqz':
            a, b = split(cond.args[0])
            if not (self.ok(a) and self.ok(b)):
                return False
            (da, ka), (db, kb) = self.form(a), self.form(b)
            d = dict(da)
            for x, c in db.items():
                d[x] = d.get(x, 0) - c
            k = ka - kb
            if pol:
                self.add(d, k)
                self.add({x: -c for x, c in d.items()}, -k)
            else:
                self.neqs.append((d, k))
            return True
        return True

    def solve(self):
        todo = self.todo
        while todo:
            rest = []
            for c, p in todo:
                if not self.assume(c, p):
                    rest.append((c, p))
            if len(rest) == len(todo):
                break
            todo = rest
        # x mod b == x when x < b
        done = set()
        ch = True
        while ch:
            ch = False
            for tag, a, i in list(self.pend):
                if i in done:
                    continue
                x, b = a.args
                if self.ok(x) and self.ok(b):
                    (dx, kx), (db, kb) = self.form(x), self.form(b)
                    d = dict(dx)
                    for y, c in db.items():
                        d[y] = d.get(y, 0) - c
                    if fm(self.cons + [(d, kx - kb)]):          # x >= b impossible
                        done.add(i)
                        ch = True
                        e = dict(dx)
                        e[i] = e.get(i, 0) - 1
                        self.add(e, kx)
                        self.add({y: -c for y, c in e.items()}, -kx)
        if fm(self.cons):
            return True
        left = list(self.neqs)
        for rounds in range(6):
            rest = []
            for d, k in left:
                up, dn = (d, k - 1), ({x: -c for x, c in d.items()}, -k - 1)
                a = fm(self.cons + [up])
                b = fm(self.cons + [dn])
                if a and b:
                    return True
                if a or b:
                    self.cons.append(dn if a else up)       # the value is at the end of its range: one less
                else:
                    rest.append((d, k))
            if len(rest) == len(left):
                break
            left = rest
        return False


def exact(p):
    """interval arithmetic alone shows the ideal reading does not wrap"""
    if is_const(p):
        return True
    half = 1 << (p.w - 1)
    full = 1 << p.w
    d, k = lin(p)
    lo = hi = k
    for mono, c in d.items():
        l = h = 1
        for a in mono:
            al, ah = rng_atom(a)
            l *= al
            h *= ah
        if c > 0:
            lo += c * l
            hi += c * h
        else:
            lo += c * h
            hi += c * l
    return lo >= 0 and hi < full


def split(d):
    """d == 0  as  a == b  with non-negative coefficients on both sides"""
    half = 1 << (d.w - 1)
    full = 1 << d.w
    pos, neg = {}, {}
    for m, k in d.args[1]:
        if k >= half:
            neg[m] = full - k
        else:
            pos[m] = k
    c = d.args[0]
    pc, nc = (0, full - c) if c >= half else (c, 0)
    return tm._mkpoly(d.w, pc, pos), tm._mkpoly(d.w, nc, neg)


def mkctx(lits):
    return Ctx(list(lits))


def nonzero(lits):
    """the leading zeros of a value known not to be zero are fewer than its bits"""
    nz = [c.args[0] for c, p in lits if c.op == 'eqz' and not p]
    if not nz:
        return lits
    mp = {}
    for c, p in lits:
        for a in lz_atoms(c):
            if a.args[0] in nz:
                mp[a] = tm.var('lz%d' % a.id, a.w, 0, a.w - 1)
    if not mp:
        return lits
    out = []
    for c, p in lits:
        if not any(a in mp for a in lz_atoms(c)):
            out.append((c, p))
            continue
        v = tm.subst(tm.condv(c), mp)
        if is_const(v):
            if bool(cval(v)) != p:
                return None
        elif v.op == 'ite' and is_const(v.args[1]) and is_const(v.args[2]):
            out.append((v.args[0], p == bool(cval(v.args[1]))))
    return out


_lz = {}


def lz_atoms(c):
    r = _lz.get(c.id)
    if r is None:
        r = _lz[c.id] = [a for a in tm.atoms_of(tm.condv(c)) if a.op == 'ctlz']
    return r


def infeasible(lits):
    tm.tick()
    key = frozenset((c.id, p) for c, p in lits)
    r = _cache.get(key)
    if r is None:
        STAT['queries'] += 1
        l2 = nonzero(lits)
        r = True if l2 is None else mkctx(l2).solve()
        _cache[key] = r
    return r


def entails(lits, v, pol=True):
    """every consistent completion of lits makes the boolean value v equal pol"""
    if is_const(v):
        return bool(cval(v)) == pol or infeasible(lits)
    c = v.args[0]
    for p, sub in ((True, v.args[1]), (False, v.args[2])):
        l2 = lits + [(c, p)]
        if infeasible(l2):
            continue
        if not entails(l2, sub, pol):
            return False
    return True


def prune(v, lits):
    """restrict a decision diagram to the feasible branches under lits"""
    lits = list(lits)
    if v.op != 'ite':
        return v
    c = v.args[0]
    for cc, p in lits:
        if cc is c:
            return prune(v.args[1] if p else v.args[2], lits)
    if infeasible(lits + [(c, True)]):
        return prune(v.args[2], lits)
    if infeasible(lits + [(c, False)]):
        return prune(v.args[1], lits)
    return tm.ite_node(c, prune(v.args[1], lits + [(c, True)]), prune(v.args[2], lits + [(c, False)]))


def leaf_eq(lits, a, b):
    if a is b:
        return True
    if a.op == 'undef' or b.op == 'undef':
        return True
    if a.op == 'ptr' and b.op == 'ptr' and a.args[0] == b.args[0]:
        return leaf_eq(lits, a.args[1], b.args[1])
    if a.op != 'poly' or b.op != 'poly':
        return False
    if a.w == 1:
        return False
    e = tm.l_eq(a, b)
    if is_const(e):
        return bool(cval(e))
    if e.op == 'ite' and e.args[0].op == 'eqz' and infeasible(list(lits) + [(e.args[0], False)]):
        return True
    # rewrite both with the equalities of the context
    mp = eq_subst(lits)
    if mp:
        a2, b2 = tm.subst(a, mp), tm.subst(b, mp)
        if a2 is b2:
            return True
        e = tm.eq(a2, b2)
        if is_const(e):
            return bool(cval(e))
    return False


def eq_subst(lits):
    """a substitution atom -> poly implied by the equalities in lits"""
    mp = {}
    for c, p in lits:
        if p and c.op == 'eqz':
            d = c.args[0]
            if mp:
                d2 = tm.subst(d, mp)
                if d2.op != 'poly':
                    continue
                d = d2
            for mono, k in d.args[1]:
                if len(mono) == 1 and k in (1, M(d.w)) and mono[0].op != 'bw':
                    a = mono[0]
                    rest = tm.p_sub(d, tm.p_scale(tm.atomv(a), k))
                    if a in tm.atoms_of(rest):
                        continue
                    r = tm.p_scale(rest, -1 if k == 1 else 1)
                    if is_const(r) or a.op != 'var' or True:
                        mp = {x: tm.subst(y, {a: r}) for x, y in mp.items()}
                        mp[a] = r
                        break
    return mp


def diff(a, b, lits=()):
    """list of (path, leaf a, leaf b) on which the two values are not shown equal"""
    out = []
    _diff(a, b, list(lits), out)
    return out


def _diff(a, b, lits, out):
    if a is b:
        return
    if len(out) > 8:
        return
    top = None
    for v in (a, b):
        if v.op == 'ite' and (top is None or v.args[0].id < top.id):
            top = v.args[0]
    if top is None:
        if not leaf_eq(lits, a, b):
            if not infeasible(lits):
                out.append((list(lits), a, b))
        return
    fixed = None
    for c, p in lits:
        if c is top:
            fixed = p
    for p in (True, False):
        if fixed is not None and p != fixed:
            continue
        l2 = lits if fixed is not None else lits + [(top, p)]
        k = 1 if p else 2
        a2 = a.args[k] if a.op == 'ite' and a.args[0] is top else a
        b2 = b.args[k] if b.op == 'ite' and b.args[0] is top else b
        if a2 is b2:
            continue
        if fixed is None and infeasible(l2):
            continue
        _diff(a2, b2, l2, out)
