"""C08: chunk size bounds, entailed by the transition graphs."""
from .. import algo, prove, terms as tm, machine as M
from ..terms import bnot, band, bor, TRUE, FALSE, ite
from ..machine import n_, C


def length(A):
    """length of the chunk when this step reports a split: bytes since the last split, and the new one if it is placed before the cut"""
    return ite(A.after, tm.add(n_, C(1)), n_)


def check(rep):
    rep.rule = ('for every path of the extracted one-byte transition graphs (all configurations, any position in the chunk), the split decision '
                'entails the configured bounds on the chunk length, and reaching the bound entails the split')
    n1 = tm.add(n_, C(1))
    for it in algo.every(algs=['fastcdc', 'zpaq', 'ram', 'buzt', 'buzb', 'buzs']):
        if it.err:
            rep.undecided('bounds: ' + it.name, it.err, it.where)
            continue
        A, a = it.A, it.c.args
        L = length(A)
        D = A.D
        rep.count(transition_functions=1)

        def ob(nm, ok, when):
            prove.obligation(rep, '%s: %s' % (it.name, nm), it, nm, ok, when)
            rep.count(obligations_entailed=1)
        if it.c.alg == 'fastcdc':
            t, mi, no, ma = a
            ob('no split before the minimum', tm.ule(mi, L), D)
            ob('no chunk beyond the maximum', tm.ule(L, ma), D)
            # with a cut before the matched byte, that byte is examined again as the first of the next chunk
            ob('no unsplit run beyond the maximum', tm.ule(n1, ma), bnot(D))
        elif it.c.alg == 'zpaq':
            avg, lt, lo, ht, hi = a
            k1, k2 = tm.cval(lt), tm.cval(ht)
            under = [tm.ult(L, lo), tm.ule(L, lo), FALSE][k1]
            over = [tm.ult(hi, L), tm.ule(hi, L), FALSE][k2]
            over1 = [tm.ult(hi, n1), tm.ule(hi, n1), FALSE][k2]
            ob('no split under the minimum, except beyond the maximum', bor(bnot(under), over), D)
            ob('always a split beyond the maximum', bnot(over1), bnot(D))
        elif it.c.alg == 'ram':
            ob('no split at a length below the window', tm.ule(a[0], L), D)
        else:
            mx = a[-1]
            ob('a split at the first length beyond the maximum', tm.ule(n1, mx), bnot(D))
            ob('no longer chunk', tm.ule(L, tm.add(mx, C(1))), D)
