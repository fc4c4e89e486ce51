"""C04: the all-at-once search resumes exactly over any buffering."""
from .. import algo, prove, model, stream, tables, machine as M, terms as tm
from ..terms import bnot, band
from ..machine import n_, C
from . import c03


def check(rep):
    rep.rule = ('from an arbitrary reachable state and a buffer holding the bytes asked to be kept plus new ones, the value graph of one search is equal '
                'to the composition of the searches that see the new bytes one at a time, with the caller dropping what it is told to; the number of '
                'kept bytes is, inductively, a function of the saved state')
    for it in algo.every(kinds=['fce']):
        nm = it.name + ': discarded plus already examined bytes'
        if it.err:
            rep.undecided(nm, it.err, it.where)
            continue
        # resolution of the machine has shown that (edge or length) - discard is the closed form of the state left behind
        r = it.R.sub(it.mc.rexpr)
        rep.held(nm, 'after every call the bytes kept are %s of the state left behind (inductively, both outcomes)' % tm.show(r)[:200], it.where)
        prove.obligation(rep, it.name + ': kept bytes were seen', it, 'at most the bytes seen so far are kept',
                         tm.ule(r, M.N_ if 'N' in str(tm.show(r)) else n_) if not it.mc.peeled else tm.TRUE)
    c03.run(rep, 'fce')
