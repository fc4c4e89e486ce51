"""Entailment obligations over an extracted transition graph."""
from . import terms as tm, theory as th, evalt, feasible
from .terms import band, bnot
from .interp import paths


def fails(base, bad, limit=6):
    """feasible-looking paths of the boolean value bad under the literals base"""
    out = []
    for p in paths(bad):
        if not th.infeasible(list(base) + p):
            out.append(p)
            if len(out) >= limit:
                break
    return out


def obligation(rep, nm, it, what, ok, when=None, base=None, budget=60000, key=None):
    """under the step's normal return (and when), ok holds; ok and when are boolean values over the model"""
    A = it.A
    base = A.base if base is None else base
    bad = band(A.gate, bnot(ok))
    if when is not None:
        bad = band(when, bad)
    fs = fails(base, bad)
    if not fs:
        rep.held(nm, what, it.where)
        return True
    hints = []
    for p in fs[:4]:
        for k, (env, tab, v) in enumerate(evalt.sample([], list(base) + p, 5, 400)):
            if k > 4:
                break
            hints.append({a: b for a, b in env.items() if b < 5000})
    w = feasible.scan(A, [bad], 1, budget if rep.tier == 'quick' else budget * 8, hints)
    if not w:
        w = feasible.aimed(A, base, fs, [bad]) or feasible.far(A, base, fs, [bad])
    text = '%s fails when %s' % (what, ' and '.join(('' if p else 'not ') + tm.show(c)[:160] for c, p in fs[0][-5:]))
    if w:
        rep.violation(nm, '%s; reached with %s after %d bytes' % (text, feasible.conf(w[0]), w[1] + 1), it.where,
                      key=(key or nm).replace(' ', '_'))
    else:
        rep.undecided(nm, text, it.where)
    return False
