"""Hash-consed value graph: polynomial / boolean-ring normal forms at the leaves, ordered decision
diagrams (MTBDD) over comparison atoms for gated merges.

A value V is either a leaf (poly / ptr / fp / undef) or an `ite` node (cond, hi, lo) whose cond is a
comparison atom; conds are ordered by creation index, so equal functions over the same atoms share
one node.  Booleans are V with 1-bit constant leaves.
"""
import sys
sys.setrecursionlimit(200000)

_tab = {}
_memo = {}
import time as _time
import resource as _res


class TooLong(Exception):
    """the analysis budget of one item is used up"""


_deadline = [None, 0]


def budget(seconds):
    """start a budget; returns the previous one, to be restored with restore()"""
    old = _deadline[0]
    d = _time.time() + seconds
    _deadline[0] = d if old is None else min(d, old)
    return old


def expired():
    """raise if the enclosing budget is used up as well"""
    if _deadline[0] is not None and _time.time() > _deadline[0]:
        raise TooLong('analysis budget used up')


def restore(old):
    _deadline[0] = old


def tick():
    _deadline[1] += 1
    if _deadline[1] & 255 == 0:
        if _deadline[0] is not None and _time.time() > _deadline[0]:
            raise TooLong('analysis budget used up')
        if _deadline[1] & 8191 == 0 and _res.getrusage(_res.RUSAGE_SELF).ru_maxrss > 14 << 20:
            raise TooLong('analysis memory used up')


class T:
    __slots__ = ('op', 'w', 'args', 'id')

    def __repr__(self):
        return show(self)

    def __lt__(self, o):
        return self.id < o.id


def mk(op, w, args):
    k = (op, w, args)
    t = _tab.get(k)
    if t is None:
        tick()
        t = T()
        t.op = op
        t.w = w
        t.args = args
        t.id = len(_tab)
        _tab[k] = t
    return t


def M(w):
    return (1 << w) - 1


# ---------------------------------------------------------------- poly leaves

def const(v, w):
    return mk('poly', w, (v & M(w), ()))


def is_const(t):
    return t.op == 'poly' and not t.args[1]


def cval(t):
    return t.args[0]


TRUE = const(1, 1)
FALSE = const(0, 1)


def boolc(b):
    return TRUE if b else FALSE


def _mkpoly(w, c, d):
    m = M(w)
    items = []
    for mono, k in d.items():
        k &= m
        if k:
            items.append((mono, k))
    items.sort(key=lambda x: tuple(a.id for a in x[0]))
    return mk('poly', w, (c & m, tuple(items)))


def atomv(a):
    """wrap an atom as a value"""
    return mk('poly', a.w, (0, (((a,), 1),)))


def single(t):
    """the atom if t is exactly one atom with coefficient 1"""
    if t.op == 'poly' and t.args[0] == 0 and len(t.args[1]) == 1:
        mono, k = t.args[1][0]
        if k == 1 and len(mono) == 1:
            return mono[0]
    return None


def var(name, w, lo=0, hi=None):
    if hi is None:
        hi = M(w)
    return atomv(mk('var', w, (name, lo, hi)))


def p_add(a, b):
    d = dict(a.args[1])
    for mono, k in b.args[1]:
        d[mono] = d.get(mono, 0) + k
    return _mkpoly(a.w, a.args[0] + b.args[0], d)


def p_scale(a, c):
    return _mkpoly(a.w, a.args[0] * c, {m: k * c for m, k in a.args[1]})


def p_sub(a, b):
    return p_add(a, p_scale(b, -1))


def _norm_mono(mono, w):
    """combine pow2 atoms; returns (coeff, mono)"""
    p2 = [a for a in mono if a.op == 'pow2']
    if len(p2) < 2:
        return 1, mono
    rest = [a for a in mono if a.op != 'pow2']
    s = p2[0].args[0]
    for a in p2[1:]:
        o = a.args[0]
        W = max(s.w, o.w)
        s = p_add(zext_l(s, W), zext_l(o, W))
    if is_const(s):
        if cval(s) >= w:
            return 0, ()
        return 1 << cval(s), tuple(sorted(rest))
    rest.append(mk('pow2', w, (s,)))
    return 1, tuple(sorted(rest))


def p_mul(a, b):
    w = a.w
    d = {}
    c = a.args[0] * b.args[0]
    for m1, k1 in list(a.args[1]) + [((), a.args[0])]:
        for m2, k2 in list(b.args[1]) + [((), b.args[0])]:
            if not m1 and not m2:
                continue
            if k1 == 0 or k2 == 0:
                continue
            co, mono = _norm_mono(tuple(sorted(m1 + m2)), w)
            k = k1 * k2 * co
            if not mono:
                c += k
            else:
                d[mono] = d.get(mono, 0) + k
    return _mkpoly(w, c, d)


# ---------------------------------------------------------------- ranges and known bits

_rngmemo = {}


def rng_atom(a):
    r = _rngmemo.get(a.id)
    if r is None:
        r = _rng_atom(a)
        _rngmemo[a.id] = r
    return r


def _rng_atom(a):
    m = M(a.w)
    if a.op == 'var':
        return (a.args[1], a.args[2])
    if a.op == 'zext':
        return rng(a.args[0])
    if a.op == 'urem':
        lo, hi = rng(a.args[0])
        _, bh = rng(a.args[1])
        return (0, min(hi, max(bh - 1, 0)))
    if a.op == 'udiv':
        lo, hi = rng(a.args[0])
        bl, bh = rng(a.args[1])
        return (lo // bh if bh else 0, hi // max(bl, 1))
    if a.op == 'lshr':
        lo, hi = rng(a.args[0])
        if is_const(a.args[1]):
            return (lo >> cval(a.args[1]), hi >> cval(a.args[1]))
        kl, _ = rng(a.args[1])
        return (0, hi >> kl)
    if a.op == 'bw':
        return (0, kb_atom(a))
    if a.op == 'pow2':
        lo, hi = rng(a.args[0])
        return (1 << min(lo, a.w - 1), 1 << min(hi, a.w - 1))
    if a.op == 'ctlz':
        x = a.args[0]
        lo, hi = rng(x) if x.op == 'poly' else (0, M(x.w))
        return (x.w - hi.bit_length(), x.w - lo.bit_length())
    if a.op == 'trunc' and a.args[0].op != 'ite':
        lo, hi = rng(a.args[0]) if a.args[0].op == 'poly' else rng_atom(a.args[0])
        return (lo, hi) if hi <= m else (0, m)
    if a.op == 'uf' and a.args[0] in ('ctpop', 'cttz'):
        return (0, a.w)
    if a.op == 'uf' and str(a.args[0]).startswith('fptoui.sat'):
        r = frange(a.args[1])
        if r:
            lo, hi = (x if x == x and abs(x) < 1e300 else (0 if x < 0 else m) for x in r)
            return (max(0, min(m, int(lo) if lo >= 1 else 0)), max(0, min(m, int(hi) if hi > 0 else 0)))
    return (0, m)


def frange(v):
    """interval of a floating point term built from monotone operations"""
    import math
    if not isinstance(v, T) or v.op != 'fp':
        return None
    a = v.args
    if len(a) == 1:
        try:
            x = float(a[0])
        except (TypeError, ValueError):
            return None
        return x, x
    if a[0] == 'uitofp' and a[1].op == 'poly':
        lo, hi = rng(a[1])
        return float(lo), float(hi)
    r = frange(a[1])
    if r is None:
        return None
    if str(a[0]).startswith('log2') and r[0] >= 0:
        def f(x, e):
            if x <= 0:
                return float('-inf')
            # exact for powers of two; elsewhere the last bits of the library function are not relied on
            return math.log2(x) if math.frexp(x)[0] == .5 else math.log2(x) + e
        return f(r[0], -1e-9), f(r[1], 1e-9)
    if str(a[0]).startswith('floor'):
        return tuple(x if abs(x) > 1e300 else float(math.floor(x)) for x in r)
    if len(a) == 3 and a[0] in ('fmul', 'fdiv'):
        k = frange(a[2])
        if k and k[0] == k[1] and k[0] > 0:
            return (r[0] * k[0], r[1] * k[0]) if a[0] == 'fmul' else (r[0] / k[0], r[1] / k[0])
    return None


def rng(p):
    """unsigned interval of a poly leaf"""
    r = _rngmemo.get(p.id)
    if r is not None:
        return r
    m = M(p.w)
    lo, hi = span(p)
    if lo < 0 or hi > m:
        lo, hi = 0, m
    r = (lo, hi)
    _rngmemo[p.id] = r
    return r


def span(p):
    """interval of the integer a poly leaf stands for, coefficients read as signed: the value is congruent to it"""
    m = M(p.w)
    half = 1 << (p.w - 1)
    lo = hi = p.args[0]
    ok = True
    if p.args[1] and p.w > 1 and lo >= half:
        lo -= m + 1
        hi -= m + 1
    for mono, k in p.args[1]:
        ml = mh = 1
        for a in mono:
            l, h = rng_atom(a)
            ml *= l
            mh *= h
        if k >= half and p.w > 1:
            k -= m + 1
        if k >= 0:
            lo += k * ml
            hi += k * mh
        else:
            lo += k * mh
            hi += k * ml
    return lo, hi


def kb_atom(a):
    if a.op == 'bw':
        r = 0
        for prod, mask in a.args[0]:
            x = mask
            for p in prod:
                x &= kb(p)
            r |= x
        return r
    if a.op == 'zext':
        return kb(a.args[0])
    h = rng_atom(a)[1]
    return (1 << h.bit_length()) - 1


def kb(p):
    """mask of bits that may be set"""
    if is_const(p):
        return cval(p)
    m = M(p.w)
    acc = p.args[0]
    disjoint = True
    for mono, k in p.args[1]:
        if len(mono) == 1 and k & (k - 1) == 0:
            x = (kb_atom(mono[0]) * k)
            if x > m:
                x &= m
                # shifted out bits: still exact as a mask
        else:
            disjoint = False
            break
        if acc & x:
            disjoint = False
            break
        acc |= x
    if disjoint:
        return acc & m
    h = rng(p)[1]
    return ((1 << h.bit_length()) - 1) & m


# ---------------------------------------------------------------- decision diagrams

def ite_node(c, hi, lo):
    if hi is lo:
        return hi
    return mk('ite', hi.w, (c, hi, lo))


def ap(name, f, *vs):
    """lift leaf function f over decision diagrams"""
    top = None
    for v in vs:
        if v.op == 'ite':
            c = v.args[0]
            if top is None or c.id < top.id:
                top = c
    if top is None:
        return f(*vs)
    key = (name,) + tuple(v.id for v in vs)
    r = _memo.get(key)
    if r is not None:
        return r
    hs = [v.args[1] if v.op == 'ite' and v.args[0] is top else v for v in vs]
    ls = [v.args[2] if v.op == 'ite' and v.args[0] is top else v for v in vs]
    r = _ite_top(top, ap(name, f, *hs), ap(name, f, *ls))
    _memo[key] = r
    return r


def _ite_top(c, hi, lo):
    if hi is lo:
        return hi
    # f may itself have produced nodes with conds above c: restore order
    if (hi.op == 'ite' and hi.args[0].id <= c.id) or (lo.op == 'ite' and lo.args[0].id <= c.id):
        return ite(ite_node(c, TRUE, FALSE), hi, lo)
    return ite_node(c, hi, lo)


def _ite_leaf(c, a, b):
    return a if cval(c) else b


def ite(c, a, b):
    if is_const(c):
        return a if cval(c) else b
    if a is b:
        return a
    # generic apply, stopping early when c becomes constant
    top = c.args[0]
    for v in (a, b):
        if v.op == 'ite' and v.args[0].id < top.id:
            top = v.args[0]
    key = ('ite', c.id, a.id, b.id)
    r = _memo.get(key)
    if r is not None:
        return r

    def co(v, k):
        return v.args[k] if v.op == 'ite' and v.args[0] is top else v
    h = ite(co(c, 1), co(a, 1), co(b, 1))
    l = ite(co(c, 2), co(a, 2), co(b, 2))
    r = ite_node(top, h, l)
    _memo[key] = r
    return r


def bnot(c):
    return ap('bnot', lambda x: boolc(not cval(x)), c)


def band(a, b):
    if a is FALSE or b is FALSE:
        return FALSE
    if a is TRUE:
        return b
    if b is TRUE:
        return a
    return ite(a, b, FALSE)


def bor(a, b):
    if a is TRUE or b is TRUE:
        return TRUE
    return ite(a, TRUE, b)


def bxor(a, b):
    return ite(a, bnot(b), b)


def condv(c):
    return ite_node(c, TRUE, FALSE)


# ---------------------------------------------------------------- bit-ring (xor of masked products)

def to_bw(p):
    """dict {frozenset-like sorted tuple of polys: mask}"""
    w = p.w
    if is_const(p):
        return {(): cval(p)} if cval(p) else {}
    a = single(p)
    if a is not None and a.op == 'bw':
        return {pr: mk_ for pr, mk_ in a.args[0]}
    if p.args[0] == M(w):
        # -1 - y is the complement of y
        d = to_bw(p_scale(p_add(p, const(1, w)), -1))
        d = dict(d)
        d[()] = d.get((), 0) ^ M(w)
        return {k: v for k, v in d.items() if v}
    # pairwise disjoint monomials -> xor of the parts
    if len(p.args[1]) > 1 or p.args[0]:
        parts = [mk('poly', w, (0, ((mono, k),))) for mono, k in p.args[1]]
        acc = p.args[0]
        ok = True
        for q in parts:
            x = kb(q)
            if acc & x:
                ok = False
                break
            acc |= x
        if ok:
            d = {}
            if p.args[0]:
                d[()] = p.args[0]
            for q in parts:
                for pr, m in to_bw(q).items():
                    d[pr] = d.get(pr, 0) ^ m
            return {k: v for k, v in d.items() if v}
    if len(p.args[1]) == 1 and p.args[0] == 0:
        mono, k = p.args[1][0]
        if len(mono) == 1 and mono[0].op == 'bw' and k & (k - 1) == 0:
            # (bw) << j : distribute
            j = k.bit_length() - 1
            d = {}
            for pr, m in mono[0].args[0]:
                m2 = (m << j) & M(w)
                if m2:
                    pr2 = tuple(sorted(p_scale(q, 1 << j) for q in pr))
                    d[pr2] = d.get(pr2, 0) ^ m2
            return d
    return {(p,): M(w)}


def from_bw(w, d):
    full = M(w)
    out = {}
    for pr, m in d.items():
        if not m:
            continue
        x = full
        for q in pr:
            x &= kb(q)
        m &= x
        if not m:
            continue
        if len(pr) == 1 and m == x:
            m = full
        out[pr] = out.get(pr, 0) ^ m
    out = {k: v for k, v in out.items() if v}
    if not out:
        return const(0, w)
    if len(out) == 1:
        (pr, m), = out.items()
        if pr == ():
            return const(m, w)
        if len(pr) == 1 and m == full:
            return pr[0]
    if len(out) == 2 and out.get(()) == full:
        (pr, m), = [(pr, m) for pr, m in out.items() if pr]
        if len(pr) == 1 and m == full:
            return p_sub(const(full, w), pr[0])
    # disjoint parts -> sum
    parts = []
    acc = 0
    ok = True
    for pr, m in out.items():
        x = m
        for q in pr:
            x &= kb(q)
        if acc & x:
            ok = False
            break
        acc |= x
        parts.append((pr, m))
    if ok and len(parts) > 1:
        r = const(0, w)
        for pr, m in parts:
            r = p_add(r, from_bw(w, {pr: m}))
        return r
    items = tuple(sorted(out.items(), key=lambda kv: tuple(q.id for q in kv[0])))
    return atomv(mk('bw', w, (items,)))


def l_xor(a, b):
    d = to_bw(a)
    for pr, m in to_bw(b).items():
        d[pr] = d.get(pr, 0) ^ m
    return from_bw(a.w, d)


def l_and(a, b):
    if is_const(a):
        a, b = b, a
    if is_const(b):
        c = cval(b)
        k = kb(a)
        if k & c == k:
            return a
        if k & c == 0:
            return const(0, a.w)
        if c & (c + 1) == 0 and c and a.w > 1:
            lo, hi = span(a)
            if lo // (c + 1) == hi // (c + 1):
                return p_sub(a, const(lo // (c + 1) * (c + 1) & M(a.w), a.w))
    da, db = to_bw(a), to_bw(b)
    if len(da) * len(db) > 64:
        da, db = {(a,): M(a.w)}, {(b,): M(a.w)}
    d = {}
    for p1, m1 in da.items():
        for p2, m2 in db.items():
            m = m1 & m2
            if m:
                pr = tuple(sorted(set(p1) | set(p2)))
                d[pr] = d.get(pr, 0) ^ m
    return from_bw(a.w, d)


def l_or(a, b):
    if kb(a) & kb(b) == 0:
        return p_add(a, b)
    return l_xor(l_xor(a, b), l_and(a, b))


def l_lshr(a, k):
    w = a.w
    if is_const(k):
        j = cval(k)
        if j == 0:
            return a
        if j >= w or rng(a)[1] >> j == 0:
            return const(0, w)
        if is_const(a):
            return const(cval(a) >> j, w)
        s = single(a)
        if s is not None and s.op == 'lshr' and is_const(s.args[1]):
            return l_lshr(s.args[0], const(j + cval(s.args[1]), w))
        if s is not None and s.op == 'bw':
            d = {}
            for pr, m in s.args[0]:
                m2 = m >> j
                if m2:
                    ps = set()
                    dead = False
                    for q in pr:
                        q2 = l_lshr(q, k)
                        if is_const(q2):
                            m2 &= cval(q2)
                        else:
                            ps.add(q2)
                    # elements may themselves be bw; keep it simple
                    if m2:
                        pr2 = tuple(sorted(ps))
                        d[pr2] = d.get(pr2, 0) ^ m2
            return from_bw(w, d)
        if len(a.args[1]) == 1 and a.args[0] == 0 and len(a.args[1][0][0]) == 1:
            mono, c = a.args[1][0]
            if c == 1 << j:
                return l_and(atomv(mono[0]), const(M(w) >> j, w))
    return atomv(mk('lshr', w, (a, k)))


def l_shl(a, k):
    w = a.w
    if is_const(k):
        if cval(k) >= w:
            return const(0, w)
        return p_scale(a, 1 << cval(k))
    return p_mul(a, atomv(mk('pow2', w, (k,))))


def l_rotl(a, k):
    """rotate left by k (k taken mod w)"""
    w = a.w
    if is_const(k):
        j = cval(k) % w
        if j == 0:
            return a
        if is_const(a):
            v = cval(a)
            return const((v << j) | (v >> (w - j)), w)
        s = single(a)
        if s is not None and s.op == 'bw':
            d = {}
            for pr, m in s.args[0]:
                m2 = ((m << j) | (m >> (w - j))) & M(w)
                pr2 = tuple(sorted(set(l_rotl(q, k) for q in pr)))
                d[pr2] = d.get(pr2, 0) ^ m2
            return from_bw(w, d)
        if s is not None and s.op == 'rotl':
            return l_rotl(s.args[0], p_add(_unmask(s.args[1], w), const(j, s.args[1].w)))
        return atomv(mk('rotl', w, (a, const(j, w))))
    s = single(a)
    # drop an explicit reduction mod w of the amount
    kk = _mod_amount(k, w)
    if s is not None and s.op == 'bw':
        if all(m == M(w) for _, m in s.args[0]):
            d = {}
            for pr, m in s.args[0]:
                pr2 = tuple(sorted(set(l_rotl(q, kk) for q in pr)))
                d[pr2] = d.get(pr2, 0) ^ m
            return from_bw(w, d)
    if s is not None and s.op == 'rotl':
        return l_rotl(s.args[0], p_add(_unmask(s.args[1], w), _unmask(kk, w)))
    if is_const(kk):
        return l_rotl(a, kk)
    return atomv(mk('rotl', w, (a, kk)))


def _unmask(k, w):
    s = single(k)
    if s is not None and s.op == 'bw' and len(s.args[0]) == 1:
        pr, m = s.args[0][0]
        if len(pr) == 1 and m == w - 1:
            return pr[0]
    if s is not None and s.op == 'bw' and len(s.args[0]) == 2:
        d = dict(s.args[0])
        if d.get(()) == w - 1:
            (pr,) = [p for p in d if p]
            if len(pr) == 1 and d[pr] == w - 1:
                return p_sub(const(M(k.w), k.w), pr[0])     # complement within the mask
    return k


def _mod_amount(k, w):
    """canonical amount: only its value mod w matters (w a power of two)"""
    s = single(k)
    if s is not None and s.op == 'bw' and len(s.args[0]) == 1:
        pr, m = s.args[0][0]
        if len(pr) == 1 and m & (w - 1) == (w - 1):
            return _mod_amount(pr[0], w)
    if s is not None and s.op == 'bw' and len(s.args[0]) == 1:
        pr, m = s.args[0][0]
    return l_and(k, const(w - 1, k.w))


def l_urem(a, b):
    w = a.w
    if is_const(b):
        c = cval(b)
        if c and c & (c - 1) == 0:
            return l_and(a, const(c - 1, w))
        if is_const(a) and c:
            return const(cval(a) % c, w)
    if rng(a)[1] < rng(b)[0]:
        return a
    s = single(a)
    if s is not None and s.op == 'urem' and s.args[1] is b:
        return a
    if a is b:
        return const(0, w)
    # (x mod b) + 1 mod b
    if not is_const(a) and a.args[0] == 1 and len(a.args[1]) == 1:
        mono, k = a.args[1][0]
        if k == 1 and len(mono) == 1 and mono[0].op == 'urem' and mono[0].args[1] is b:
            return ite(eq(a, b), const(0, w), a)
    return atomv(mk('urem', w, (a, b)))


def l_udiv(a, b):
    if is_const(b):
        c = cval(b)
        if c and c & (c - 1) == 0:
            return l_lshr(a, const(c.bit_length() - 1, a.w))
        if is_const(a) and c:
            return const(cval(a) // c, a.w)
    return atomv(mk('udiv', a.w, (a, b)))


def zext_l(p, w):
    if p.w == w:
        return p
    if is_const(p):
        return const(cval(p), w)
    s = single(p)
    if s is not None and s.op == 'zext':
        return zext_l(s.args[0], w)
    if s is not None and s.op == 'trunc':
        return l_and(zt(atomv(s.args[0]), w), const(M(p.w), w))
    if s is not None and s.op == 'bw':
        d = {}
        for pr, m in s.args[0]:
            pr2 = tuple(sorted(zext_l(q, w) for q in pr))
            d[pr2] = m
        # mask must confine truncated elements
        return from_bw(w, d)
    if len(p.args[1]) + bool(p.args[0]) > 1 and p.w > 1 and _exact(p):
        half = 1 << (p.w - 1)
        r = const(p.args[0] - (2 * half if p.args[0] >= half else 0), w)
        for mono, k in p.args[1]:
            x = const(k - (2 * half if k >= half else 0), w)
            for a in mono:
                x = p_mul(x, zext_l(atomv(a), w))
            r = p_add(r, x)
        return r
    return atomv(mk('zext', w, (p,)))


def _exact(p):
    from . import theory
    return theory.exact(p)


def zt(p, w):
    return zext_l(p, w) if w >= p.w else trunc_l(p, w)


def trunc_l(p, w):
    if p.w == w:
        return p
    c = p.args[0]
    d = {}
    for mono, k in p.args[1]:
        acc = const(k, w)
        for a in mono:
            acc = p_mul(acc, trunc_atom(a, w))
        for m2, k2 in acc.args[1]:
            d[m2] = d.get(m2, 0) + k2
        c += acc.args[0]
    return _mkpoly(w, c, d)


def trunc_atom(a, w):
    if a.op == 'zext':
        return zt(a.args[0], w)
    if a.op == 'trunc':
        return trunc_atom(a.args[0], w)
    if a.op == 'bw':
        d = {}
        for pr, m in a.args[0]:
            m &= M(w)
            if m:
                pr2 = tuple(sorted(set(trunc_l(q, w) for q in pr)))
                d[pr2] = d.get(pr2, 0) ^ m
        return from_bw(w, d)
    if a.op == 'pow2':
        return atomv(mk('pow2', w, a.args))
    return atomv(mk('trunc', w, (a,)))


def sext_l(p, w):
    if is_const(p):
        v = cval(p)
        if v >> (p.w - 1):
            v -= 1 << p.w
        return const(v, w)
    if rng(p)[1] < 1 << (p.w - 1):
        return zext_l(p, w)
    return atomv(mk('sext', w, (p,)))


# ---------------------------------------------------------------- comparisons

def _hasbw(p):
    s = single(p)
    return s is not None and s.op == 'bw'


def l_eq(a, b):
    if a is b:
        return TRUE
    if a.op == 'ptr' or b.op == 'ptr':
        if a.op == 'ptr' and b.op == 'ptr':
            if a.args[0] == b.args[0]:
                return l_eq(a.args[1], b.args[1])
            return FALSE
        p, q = (a, b) if a.op == 'ptr' else (b, a)
        if q.op == 'poly' and is_const(q) and cval(q) < 4096:
            return FALSE            # an object is never at a null or dangling-constant address
        return condv(mk('peq', 1, tuple(sorted((a, b)))))
    if a.op != 'poly' or b.op != 'poly':
        return condv(mk('xeq', 1, tuple(sorted((a, b)))))
    la, ha = rng(a)
    lb, hb = rng(b)
    if ha < lb or hb < la:
        return FALSE
    if a.w == 1:
        raise Exception('eq on bool leaves')
    if _hasbw(a) or _hasbw(b):
        x = l_xor(a, b)
        if is_const(x):
            return boolc(cval(x) == 0)
        return eqz(x)
    return eqz(p_sub(a, b))


def eqz(d):
    w = d.w
    if is_const(d):
        return boolc(cval(d) == 0)
    # zext(x) - c
    if len(d.args[1]) == 1:
        mono, k = d.args[1][0]
        if len(mono) == 1 and mono[0].op == 'zext' and k in (1, M(w)):
            x = mono[0].args[0]
            c = (-d.args[0]) & M(w) if k == 1 else d.args[0]
            if c > M(x.w):
                return FALSE
            return l_eq(x, const(c, x.w))
        if d.args[0] == 0 and len(mono) == 1 and mono[0].op == 'zext' and k & 1 == 0 and False:
            pass
    elif len(d.args[1]) == 2 and d.args[0] == 0:
        (m1, k1), (m2, k2) = d.args[1]
        if len(m1) == 1 and len(m2) == 1 and m1[0].op == 'zext' and m2[0].op == 'zext' \
                and (k1 + k2) & M(w) == 0 and k1 in (1, M(w)) and m1[0].args[0].w == m2[0].args[0].w:
            return l_eq(m1[0].args[0], m2[0].args[0])
    # sign normalisation
    if d.args[1][0][1] >> (w - 1):
        d = p_scale(d, -1)
    return condv(mk('eqz', 1, (d,)))


def l_ult(a, b):
    if a is b:
        return FALSE
    if a.op == 'ptr' and b.op == 'ptr' and a.args[0] == b.args[0]:
        return l_ult(a.args[1], b.args[1])
    if a.op != 'poly' or b.op != 'poly':
        return condv(mk('xult', 1, (a, b)))
    la, ha = rng(a)
    lb, hb = rng(b)
    if ha < lb:
        return TRUE
    if la >= hb:
        return FALSE
    if is_const(b) and cval(b) == 1:
        return eqz(a)
    if is_const(a) and cval(a) == 0:
        return bnot(eqz(b))
    if is_const(b) and cval(b) == ha:       # a < max(a)  <=>  a != max(a)
        return bnot(l_eq(a, b))
    sa, sb = single(a), single(b)
    if sa is not None and sa.op == 'zext' and is_const(b):
        x = sa.args[0]
        return l_ult(x, const(cval(b), x.w))
    if sb is not None and sb.op == 'zext' and is_const(a):
        x = sb.args[0]
        return l_ult(const(cval(a), x.w), x)
    if sa is not None and sb is not None and sa.op == 'zext' and sb.op == 'zext' and \
            sa.args[0].w == sb.args[0].w:
        return l_ult(sa.args[0], sb.args[0])
    if is_const(a):     # c < b  <=>  !(b < c+1)
        return bnot(l_ult(b, const(cval(a) + 1, a.w)))
    return condv(mk('ult', 1, (a, b)))


def l_slt(a, b):
    if a is b:
        return FALSE
    if a.op != 'poly' or b.op != 'poly':
        return condv(mk('xslt', 1, (a, b)))
    h = 1 << (a.w - 1)
    (la, ha), (lb, hb) = rng(a), rng(b)
    if is_const(a) and is_const(b):
        s = lambda v: v - 2 * h if v >= h else v
        return boolc(s(cval(a)) < s(cval(b)))
    if ha < h and hb < h:
        return l_ult(a, b)
    if is_const(b) and ha < h:
        return boolc(False) if cval(b) >= h else l_ult(a, b)
    if is_const(a) and hb < h:
        return boolc(True) if cval(a) >= h else l_ult(a, b)
    return condv(mk('slt', 1, (a, b)))


# ---------------------------------------------------------------- lifted operations

def lift(name, f):
    def g(*vs):
        for v in vs:
            if v.op == 'ite':
                return ap(name, f, *vs)
        return f(*vs)
    return g


def _undefsafe(f):
    def g(a, b):
        if a.op == 'undef' or b.op == 'undef':
            return mk('undef', a.w, ())
        return f(a, b)
    return g


def _ptr_add(a, b):
    if a.op == 'ptr' and b.op == 'poly':
        return mk('ptr', 64, (a.args[0], p_add(a.args[1], b)))
    if b.op == 'ptr' and a.op == 'poly':
        return _ptr_add(b, a)
    return p_add(a, b)


def _ptr_sub(a, b):
    if a.op == 'ptr' and b.op == 'ptr' and a.args[0] == b.args[0]:
        return p_sub(a.args[1], b.args[1])
    if a.op == 'ptr' and b.op == 'poly':
        return mk('ptr', 64, (a.args[0], p_sub(a.args[1], b)))
    if a.op == 'ptr' or b.op == 'ptr':
        return atomv(mk('uf', 64, ('ptrdiff', a, b)))
    return p_sub(a, b)


add = lift('add', _undefsafe(_ptr_add))
sub = lift('sub', _undefsafe(_ptr_sub))
mul = lift('mul', _undefsafe(p_mul))
xor_ = lift('xor', _undefsafe(l_xor))
and_ = lift('and', _undefsafe(l_and))
or_ = lift('or', _undefsafe(l_or))
shl = lift('shl', _undefsafe(l_shl))
lshr = lift('lshr', _undefsafe(l_lshr))
ashr = lift('ashr', _undefsafe(lambda a, k: l_lshr(a, k) if rng(a)[1] < 1 << (a.w - 1) else atomv(mk('ashr', a.w, (a, k)))))
rotl = lift('rotl', _undefsafe(l_rotl))
urem = lift('urem', _undefsafe(l_urem))
udiv = lift('udiv', _undefsafe(l_udiv))
eq = lift('eq', l_eq)
ult = lift('ult', l_ult)
slt = lift('slt', l_slt)


def ule(a, b):
    return bnot(ult(b, a))


def zext(v, w):
    def f(p):
        if p.op == 'undef':
            return mk('undef', w, ())
        return zext_l(p, w)
    return ap(('zext', w), f, v)


def trunc(v, w):
    def f(p):
        if p.op != 'poly':
            return mk('undef', w, ())
        return trunc_l(p, w)
    return ap(('trunc', w), f, v)


def sext(v, w):
    return ap(('sext', w), lambda p: sext_l(p, w), v)


def umin(a, b):
    return ite(ult(a, b), a, b)


def umax(a, b):
    return ite(ult(a, b), b, a)


def uf(name, w, *args):
    return ap(('uf', name, w), lambda *a: atomv(mk('uf', w, (name,) + a)), *args)


# ---------------------------------------------------------------- substitution

def subst(t, mp, memo=None):
    """rebuild value/atom t, replacing atoms (and conds) per mp: {atom T: value V}"""
    if memo is None:
        memo = {}
    r = memo.get(t.id)
    if r is not None:
        return r
    r = _subst(t, mp, memo)
    memo[t.id] = r
    return r


def _subst(t, mp, memo):
    if callable(mp):
        x = mp(t)
        if x is not None:
            return x
    elif t in mp:
        return mp[t]
    op = t.op
    S = lambda x: subst(x, mp, memo)
    if op == 'ite':
        c = S(t.args[0])
        if is_const(c):
            return S(t.args[1]) if cval(c) else S(t.args[2])
        return ite(c, S(t.args[1]), S(t.args[2]))
    if op == 'poly':
        if not t.args[1]:
            return t
        r = const(t.args[0], t.w)
        for mono, k in t.args[1]:
            x = const(k, t.w)
            for a in mono:
                x = mul(x, S(a)) if not (x.op == 'poly' and is_const(x) and cval(x) == 1) else S(a)
            r = add(r, x) if not (r.op == 'poly' and is_const(r) and cval(r) == 0) else x
        return r
    if op == 'var' or op == 'undef':
        return atomv(t) if op == 'var' else t
    if op == 'ptr':
        o = S(t.args[1])
        return ap(('mkptr', t.args[0]), lambda p: mk('ptr', 64, (t.args[0], p)), o)
    if op == 'zext':
        return zext(S(t.args[0]), t.w)
    if op == 'sext':
        return sext(S(t.args[0]), t.w)
    if op == 'trunc':
        return trunc(S(t.args[0]), t.w)
    if op == 'bw':
        r = const(0, t.w)
        for pr, m in t.args[0]:
            x = const(m, t.w)
            for q in pr:
                x = and_(x, S(q))
            r = xor_(r, x)
        return r
    if op == 'pow2':
        return shl(const(1, t.w), S(t.args[0]))
    if op == 'lshr':
        return lshr(S(t.args[0]), S(t.args[1]))
    if op == 'ashr':
        return ashr(S(t.args[0]), S(t.args[1]))
    if op == 'rotl':
        return rotl(S(t.args[0]), S(t.args[1]))
    if op == 'urem':
        return urem(S(t.args[0]), S(t.args[1]))
    if op == 'udiv':
        return udiv(S(t.args[0]), S(t.args[1]))
    if op == 'eqz':
        d = S(t.args[0])
        return ap('eqz', lambda x: eqz_l(x), d)
    if op == 'ult':
        return ult(S(t.args[0]), S(t.args[1]))
    if op == 'slt':
        return slt(S(t.args[0]), S(t.args[1]))
    if op in ('peq', 'xeq'):
        return eq(S(t.args[0]), S(t.args[1]))
    # generic atoms: S, read, tbl, uf, ctlz, fp ...
    def build(*vals):
        it = iter(vals)
        args = tuple(next(it) if isinstance(a, T) else a for a in t.args)
        y = mk(op, t.w, args)
        if op in CONDS:
            return condv(y)
        if op in LEAFOPS:
            return y
        return atomv(y)
    kids = [S(a) for a in t.args if isinstance(a, T)]
    return ap(('gen', op, t.w, tuple(a if not isinstance(a, T) else None for a in t.args)), build, *kids)


def eqz_l(x):
    if _hasbw(x) or x.op != 'poly':
        return eqz(x) if x.op == 'poly' else l_eq(x, const(0, x.w))
    # x may be a sum of a bw and a constant etc.: keep the same canonical choice as l_eq
    pos = {}
    neg = {}
    half = 1 << (x.w - 1)
    hasbw = any(len(m) == 1 and m[0].op == 'bw' for m, k in x.args[1])
    if hasbw and len(x.args[1]) <= 2:
        for m, k in x.args[1]:
            if k >= half:
                neg[m] = (M(x.w) + 1) - k
            else:
                pos[m] = k
        c = x.args[0]
        pc, nc = (0, (-c) & M(x.w)) if c >= half else (c, 0)
        if not neg:
            nc, pc = (-c) & M(x.w), 0
        a = _mkpoly(x.w, pc, pos)
        b = _mkpoly(x.w, nc, neg)
        return l_eq(a, b)
    return eqz(x)


CONDS = {'eqz', 'ult', 'slt', 'peq', 'xeq', 'xult', 'xslt', 'bvar', 'fcmp'}
LEAFOPS = {'poly', 'ptr', 'undef', 'fp', 'mem'}


def atoms_of(t, acc=None, seen=None):
    if acc is None:
        acc, seen = set(), set()
    st = [t]
    while st:
        x = st.pop()
        if x.id in seen:
            continue
        seen.add(x.id)
        if x.op == 'poly':
            for mono, k in x.args[1]:
                st.extend(mono)
        elif x.op == 'bw':
            acc.add(x)
            for pr, m in x.args[0]:
                st.extend(pr)
        else:
            if x.op != 'ite':
                acc.add(x)
            for a in x.args:
                if isinstance(a, T):
                    st.append(a)
    return acc


# ---------------------------------------------------------------- printing

def show(t, depth=0):
    if depth > 12:
        return '..'
    op = t.op
    s = lambda x: show(x, depth + 1)
    if op == 'poly':
        out = []
        half = 1 << (t.w - 1) if t.w > 1 else 2
        c = t.args[0]
        for mono, k in t.args[1]:
            kk = k - (1 << t.w) if k >= half else k
            ms = '*'.join(s(a) for a in mono)
            if kk == 1:
                out.append('+' + ms)
            elif kk == -1:
                out.append('-' + ms)
            else:
                out.append(('+' if kk >= 0 else '-') + (str(abs(kk)) if abs(kk) < 100000 else hex(abs(kk))) + '*' + ms)
        if c or not out:
            cc = c - (1 << t.w) if c >= half and out else c
            out.append(('+' if cc >= 0 else '-') + (str(abs(cc)) if abs(cc) < 1 << 20 else hex(abs(cc))))
        r = ''.join(out)
        if r.startswith('+'):
            r = r[1:]
        return r if len(out) == 1 else '(' + r + ')'
    if op == 'ite':
        return '(if %s then %s else %s)' % (s(t.args[0]), s(t.args[1]), s(t.args[2]))
    if op == 'var':
        return t.args[0]
    if op == 'bw':
        parts = []
        for pr, m in t.args[0]:
            if pr == ():
                parts.append(hex(m))
            else:
                x = '&'.join(s(q) for q in pr)
                if m != M(t.w):
                    x += '&' + hex(m)
                parts.append(x)
        return '[' + ' ^ '.join(parts) + ']'
    if op == 'eqz':
        return '%s==0' % s(t.args[0])
    if op == 'ult':
        return '%s<%s' % (s(t.args[0]), s(t.args[1]))
    if op == 'zext':
        return 'z%d(%s)' % (t.w, s(t.args[0]))
    return op + '(' + ', '.join(s(a) if isinstance(a, T) else str(a) for a in t.args) + ')'
