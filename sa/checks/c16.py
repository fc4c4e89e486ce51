"""C16: the range helper computes interval membership (value-graph equality with the definition)."""
from .. import terms as tm, theory as th
from ..terms import const, var, ite, band, bor, bnot, TRUE, FALSE
from ..spec0 import *


def c64(n):
    return const(n, 64)


def isk(t, k):
    return tm.eq(t, c64(k))


def b2i(b):
    return ite(b, c64(1), c64(0))


def check(rep):
    rep.rule = ('gated value graph of every RangeExt operation, instantiated for all nine bound kinds and for the std range types, '
                'compared with the definition of interval membership for all 64-bit values')
    m, g = module()
    V = lambda n: var(n, 64)
    lt, lv, ht, hv, x, a, b = (V(n) for n in ('lt', 'lv', 'ht', 'hv', 'x', 'a', 'b'))
    kinds = [(const(i, 64), const(j, 64)) for i in range(3) for j in range(3)]

    def above(t, v):
        k = tm.cval(t)
        return {0: tm.ult(v, x), 1: tm.ule(v, x), 2: FALSE}[k]

    def below(t, v):
        k = tm.cval(t)
        return {0: tm.ult(x, v), 1: tm.ule(x, v), 2: FALSE}[k]
    KN = ['inclusive', 'exclusive', 'unbounded']

    def cmp(name, fn, args, spec, known=None):
        st = State()
        o = outobj(st, 'out')
        try:
            r = call(fn, args + [o], st)
        except Unsupported as e:
            rep.undecided(name, str(e), fn)
            return
        w = where(m, m.fns['@' + fn])
        if r.panics and not all(th.infeasible(p) for q in r.panics for p in paths_of(q.gate)):
            rep.violation(name, 'may panic: %s' % (r.panics[0],), r.panics[0].where[0])
            return
        bad = []
        for i, s in enumerate(spec):
            if s is None:
                continue
            got = r.state.objs['out'].load(8 * i, 8)
            d = th.diff(got, s)
            if d:
                bad.append('result %d under %s: code gives %s, definition gives %s'
                           % (i, witness(d[0][0]), tm.show(d[0][1]), tm.show(d[0][2])))
        if bad:
            rep.violation(name, bad[0], w, key=name.replace(' ', '_'))
        else:
            rep.held(name, 'value graph of %s equals the definition' % fn, w)
    from ..interp import paths as paths_of
    for tl, thi in kinds:
        nm = '%s lower, %s upper' % (KN[tm.cval(tl)], KN[tm.cval(thi)])
        A = [tl, lv, thi, hv]
        cmp('exceeds_max: ' + nm, 'range_exceeds', A + [x], [b2i(above(thi, hv))])
        cmp('under_min: ' + nm, 'range_under', A + [x], [b2i(below(tl, lv))])
        cmp('contains: ' + nm, 'range_contains', A + [x], [b2i(band(bnot(below(tl, lv)), bnot(above(thi, hv))))])
        cmp('into_tuple: ' + nm, 'range_tuple', A, [tl, None if tm.cval(tl) == 2 else lv, thi, None if tm.cval(thi) == 2 else hv])
    I, E, U = c64(0), c64(1), c64(2)
    cmp('into_tuple: a..b', 'range_t_half', [a, b], [I, a, E, b])
    cmp('into_tuple: a..=b', 'range_t_incl', [a, b], [I, a, I, b])
    cmp('into_tuple: a..', 'range_t_from', [a], [I, a, U, None])
    cmp('into_tuple: ..b', 'range_t_to', [b], [U, None, E, b])
    cmp('into_tuple: ..=b', 'range_t_toi', [b], [U, None, I, b])
    cmp('into_tuple: ..', 'range_t_full', [], [U, None, U, None])
    cmp('exceeds_max: a..b', 'range_h_exceeds', [a, b, x], [b2i(tm.ule(b, x))])
    cmp('under_min: a..b', 'range_h_under', [a, b, x], [b2i(tm.ult(x, a))])
    cmp('contains: a..b', 'range_h_contains', [a, b, x], [b2i(band(tm.ule(a, x), tm.ult(x, b)))])
    cmp('contains: a..=b', 'range_i_contains', [a, b, x], [b2i(band(tm.ule(a, x), tm.ule(x, b)))])
    for k in range(3):
        t = c64(k)
        cmp('bound_cloned: ' + KN[k], 'range_cloned', [t, lv], [t, None if k == 2 else lv])
