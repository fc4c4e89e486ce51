"""C09: positions in range and progress, entailed by the transition graphs."""
from .. import algo, prove, model, terms as tm, machine as M
from . import c03
from ..terms import bnot, band, bor, TRUE, FALSE, ite
from ..machine import n_, C


def check(rep):
    rep.rule = ('for every path of the extracted one-byte transition graphs (all configurations, any position in the chunk) the reported index and '
                'the discard count are within the piece or buffer, and the chunk that ends there is not empty')
    for it in algo.every():
        if it.err:
            rep.undecided('positions: ' + it.name, it.err, it.where)
            continue
        A, R = it.A, it.R
        rep.count(transition_functions=1)

        def ob(nm, ok, when):
            prove.obligation(rep, '%s: %s' % (it.name, nm), it, nm, ok, when)
            rep.count(obligations_entailed=1)
        if it.kind == 'push':
            ob('index within the piece', tm.ule(A.idx, C(1)), A.D)
            ob('no empty chunk', tm.ule(C(1), tm.add(n_, A.idx)), A.D)
        else:
            r = R.sub(it.mc.rexpr)
            ln = tm.add(r, C(1))
            d = model.canon_tables(R.sub(R.step.discard), model.KNOWN)
            ob('edge within the buffer', tm.ule(A.idx, ln), A.D)
            ob('discard does not exceed the edge', tm.ule(d, A.idx), A.D)
            ob('discard within the buffer', tm.ule(d, ln), bnot(A.D))
            ob('edge after the previous one', tm.ule(tm.add(r, C(1)), tm.add(n_, A.idx)), A.D)
    for a in M.ALGS:
        for k in ('push', 'fce'):
            c03.sensitive(rep, a, k)
