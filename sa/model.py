"""Abstract chunkers: what one more byte does, as a value graph over (configuration, accumulators, position,
recent bytes).  Code machines (sa/machine.py) and published recurrences (sa/spec.py) are both put into this form
and compared by matching their accumulators inductively."""
import itertools
from . import terms as tm, theory as th, machine as M, interp as ip, evalt, tables
from .terms import const, is_const, cval, var, ite, band, bor, bnot, TRUE, FALSE, mk
from .interp import isarr, mem, paths
from .machine import n_, N_, b_, lag, C


class Model:
    def __init__(self, name, where):
        self.name, self.where = name, where
        self.accs = {}      # key -> (width, init V, variable V)
        self.post = {}      # key -> V
        self.arrs = {}      # key -> (init content, post content)   arrays addressed by content, reads rd(key, .)
        self.D = FALSE      # this byte reports a split
        self.after = TRUE   # ... placed after the byte
        self.gate = TRUE
        self.base = []
        self.notes = []
        self.mc = None
        self.rings = {}     # ring buffers: name -> (period, counter, initial content)
        self.fresh = ()


def canon_tables(v, known):
    """tables by content: reads of a constant whose content is a known table are named after it"""
    def mp(t):
        if t.op == 'tbl':
            nm = t.args[0]
            for k, test in known.items():
                if nm != k and test(nm):
                    off = tm.subst(t.args[1], mp)
                    return tm.ap(('tbln', k, t.w), lambda o: tm.atomv(mk('tbl', t.w, (k, o))), off)
        return None
    return tm.subst(v, mp)


_gc = {}


def table_is(nm, table):
    """does the constant object nm hold exactly this published table"""
    key = (nm, table)
    if key not in _gc:
        w = tables.WIDTH[table]
        want = tables.expected(table)
        d = ip.GDATA.get(nm)
        ok = bool(d) and sum(x[1] for x in d) == w * len(want)
        if ok:
            b = bytearray(w * len(want))
            for o, sz, v in d:
                if v[0] != 'int':
                    ok = False
                    break
                b[o:o + sz] = v[1].to_bytes(sz, 'little')
            ok = ok and b == b''.join(x.to_bytes(w, 'little') for x in want)
        _gc[key] = ok
    return _gc[key]


KNOWN = {'GEAR_32': lambda nm: table_is(nm, 'GEAR_32')}


def from_code(mc, R):
    m = Model(mc.name, mc.where)
    m.kind = mc.kind
    m.mc, m.R = mc, R
    m.cfgargs, m.cfgbase = [a for a in mc.c.args if a.op == 'poly'], list(mc.c.base)
    m.ghosts = sorted(set((P, g, v) for g, P, v in R.env.ring if is_const(P)), key=str)
    m.ghosts = [(cval(P), g, tm.single(v).args[0]) for P, g, v in m.ghosts]
    k = lambda v: canon_tables(v, KNOWN)
    m.base = [(k(tm.condv(c)), p) for c, p in R.base]
    m.base = [M.lit(v, p) for v, p in m.base if not is_const(v)]
    m.D = k(R.D)
    m.gate = k(R.gate)
    one = C(1) if mc.kind == 'push' else tm.add(R.sub(mc.rexpr), C(1))
    m.after = k(tm.eq(R.idx, one))
    m.idx = k(R.idx)
    m.rings = {nm: (P, g, R.arrpost[nm][1]) for nm, (P, g, q) in R.rings.items()}
    m.fresh = R.fresh
    m.one = one
    for off in mc.cells:
        if mc.kind_of.get(off) == 'acc':
            size, v0 = mc.cells[off]
            m.accs[off] = (8 * size, v0, mc.hv(off))
            m.post[off] = k(R.post[off])
    for nm, (post, init) in R.arrpost.items():
        if nm in R.rings or nm in R.const or post is None:
            continue
        m.arrs[nm] = (init, k(R.sub(post)))
    return m


def rename(v, accmap, arrmap):
    """v with accumulators replaced by values and arrays renamed"""
    memo = {}

    def mp(t):
        if t.op == 'var' and t in accmap:
            return accmap[t]
        if t.op == 'rd' and t.args[0] in arrmap:
            off = tm.subst(t.args[1], mp, memo)
            nm = arrmap[t.args[0]]
            return tm.ap(('rdn', nm, t.w), lambda o: tm.atomv(mk('rd', t.w, (nm, o))), off)
        if t.op == 'mem' and t.args[0] == 'init' and t.args[1] in arrmap:
            return mem('init', arrmap[t.args[1]])
        return None
    return tm.subst(v, mp, memo)


class Mismatch:
    def __init__(self, what, path, got, want, env=None):
        self.what, self.path, self.got, self.want, self.env = what, path, got, want, env


def obligations(a, b, accmap, arrmap):
    """compare model a (renamed into b's accumulators) with b; returns list of Mismatch"""
    ren = lambda v: rename(v, accmap, arrmap)
    base = list(dict.fromkeys(a_lits(a, ren) + b.base))
    out = []
    gate = ren(a.gate)
    Da = ren(a.D)
    U1 = mk('undef', 1, ())
    for path, x, y in th.diff(ite(gate, Da, U1), ite(gate, b.D, U1), base):
        out.append(Mismatch('the split decision', base + path, x, y))
    d = band(gate, b.D)
    for path, x, y in th.diff(ite(d, ren(a.after), U1), ite(d, b.after, U1), base):
        out.append(Mismatch('where the split is placed', base + path, x, y))
    return out, base, gate, ren


def a_lits(a, ren):
    out = []
    for c, p in a.base:
        v = ren(tm.condv(c))
        if is_const(v):
            continue
        try:
            out.append(M.lit(v, p))
        except Exception:
            pass
    return out


def match(a, b, forms=None):
    """find a relation between the accumulators of a and those of b that is preserved by a step.

    Returns (mismatches, relation text).  The relation maps every accumulator of a to a value over b's."""
    keysA = list(a.accs)
    keysB = list(b.accs)
    arrA, arrB = list(a.arrs), list(b.arrs)
    best = None
    opts = []
    for ka in keysA:
        wa, ia, va = a.accs[ka]
        o = []
        for kb in keysB:
            wb, ib, vb = b.accs[kb]
            for text, f in relforms(wa, ia, wb, ib, forms, b):
                o.append((kb, text, f))
        if not o:
            o = [(None, 'free', None)]
        opts.append(o)
    arrperm = [dict(zip(arrA, p)) for p in itertools.permutations(arrB, len(arrA))] if len(arrA) <= len(arrB) else [{}]
    n = 0
    for combo in itertools.product(*opts):
        n += 1
        if n > 200:
            break
        used = [k for k, t, f in combo if k is not None]
        accmap = {}
        for ka, (kb, t, f) in zip(keysA, combo):
            if kb is not None:
                accmap[tm.single(a.accs[ka][2])] = f(b.accs[kb][2], 'now')
        for arrmap in arrperm:
            mm, base, gate, ren = obligations(a, b, accmap, arrmap)
            if mm:
                # states are compared where the two sides agree on the split
                gate = band(gate, bnot(tm.bxor(ren(a.D), b.D)))
            for ka, (kb, t, f) in zip(keysA, combo):
                wa, ia, va = a.accs[ka]
                if kb is None:
                    mm.append(Mismatch('state without counterpart %s' % ka, [], va, va))
                    continue
                want0 = f(b.accs[kb][1], 'init')
                if th.diff(ia, want0, base):
                    mm.append(Mismatch('the initial state (%s)' % kb, base, ia, want0))
                U = mk('undef', wa, ())
                want = ite(b.D, f(b.post[kb], 'split'), f(b.post[kb], 'next'))
                for path, x, y in th.diff(ite(gate, ren(a.post[ka]), U), ite(gate, want, U), base):
                    mm.append(Mismatch('the state after the byte (%s)' % kb, base + path, x, y))
            for ka, kb in arrmap.items():
                ia, pa = a.arrs[ka]
                ib, pb = b.arrs[kb]
                if ia is not ib:
                    mm.append(Mismatch('the initial table (%s)' % kb, base, ia, ib))
                pa = ren(pa)
                for path, x, y in arrdiff(pa, pb, gate, base):
                    mm.append(Mismatch('the table after the byte (%s)' % kb, base + path, x, y))
            score = len(mm) + 3 * (len(keysB) - len(set(used)))
            if best is None or score < best[0]:
                best = (score, mm, {k: (c[0], c[1]) for k, c in zip(keysA, combo)}, accmap, arrmap, base)
            if score == 0:
                break
        if best and best[0] == 0:
            break
    return best


def arrdiff(a, b, gate, base):
    out = []
    la, lb = [], []
    M.leaves_of(ite(gate, a, mem('undef')), [], la)
    for ls, x in la:
        if x is mem('undef') or th.infeasible(base + ls):
            continue
        y = b
        lb = []
        M.leaves_of(th.prune(y, base + ls), ls, lb)
        for ls2, y in lb:
            if th.infeasible(base + ls2):
                continue
            if x is y:
                continue
            if x.args[0] == 'st' and y.args[0] == 'st' and x.args[1] is y.args[1] and x.args[3] == y.args[3] and \
                    th.leaf_eq(base + ls2, x.args[2], y.args[2]) and th.leaf_eq(base + ls2, x.args[4], y.args[4]):
                continue
            out.append((ls2, x, y))
    return out


def relforms(wa, ia, wb, ib, forms, b):
    """how an accumulator of a may derive from one of b"""
    out = []
    if wa == wb:
        out.append(('equal', lambda v, when: v))
        if ia is not ib and wa > 1 and not (isarr(ia) or isarr(ib)):
            out.append(('counts down from its initial value', lambda v, when: tm.sub(ia, tm.sub(v, ib))))
            out.append(('offset by its initial value', lambda v, when: tm.add(ia, tm.sub(v, ib))))
    elif wa < wb:
        out.append(('low bits', lambda v, when: tm.trunc(v, wa)))
    if forms:
        out += forms(wa, ia, wb, ib)
    return out


def describe(mm, limit=3):
    s = []
    for x in mm[:limit]:
        s.append('%s: code %s, expected %s when %s' % (x.what, tm.show(x.got)[:300], tm.show(x.want)[:300],
                                                      ' and '.join(('' if p else 'not ') + tm.show(c)[:120] for c, p in x.path[-4:]) or 'always'))
    return '; '.join(s)
