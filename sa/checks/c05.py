"""C05: the transition functions of push and find_chunk_edge agree."""
from .. import algo, model, feasible, machine as M, terms as tm, theory as th
from .c10 import low20

# a match of the FastCDC masks: push places the cut before the matched byte, find_chunk_edge after it
FCDC = 'fastcdc-cut-before-matched-byte'


def check(rep):
    rep.rule = ('the transition functions extracted from push and from find_chunk_edge (under the documented buffering) are matched '
                'inductively: same split decision, same placement and related states for every configuration and history')
    for a in M.ALGS:
        for c in algo.configs(a):
            p, f = algo.get(c, 'push'), algo.get(c, 'fce')
            nm = 'push = find_chunk_edge: ' + p.name[:-5]
            if p.err or f.err:
                rep.undecided(nm, p.err or f.err, p.where)
                continue
            one(rep, nm, p, f)


def one(rep, nm, p, f):
    best = None
    for x, y in ((f, p), (p, f)):
        b = model.match(x.A, y.A)
        if best is None or b[0] < best[0][0]:
            best = (b, x, y)
        if b[0] == 0:
            break
    b, x, y = best
    n = 60000 if rep.tier == 'quick' else 400000
    if b[0] and not p.S.accs and False:
        pass
    if p.c.alg == 'fastcdc':
        return fastcdc(rep, nm, b, x, y, n)
    v, t = feasible.judge(x.A, y.A, b, n, watch=low20(x, b) if x.c.alg == 'zstd' and b[0] else None)
    where = '%s / %s' % (p.where, f.where)
    if v == 'held':
        rep.held(nm, '%d accumulators related, decision and placement equal' % len(x.A.accs), where)
        rep.count(transition_pairs=1)
    elif v == 'violation':
        rep.violation(nm, '%s [%s]' % (t, model.describe(b[1], 2)), where, key=nm.replace(' ', '_'))
    else:
        # both sides may still equal the published recurrence
        rep.undecided(nm, model.describe(b[1], 3), where)


def fastcdc(rep, nm, b, x, y, n):
    """the placement of a mask match differs (known finding); everything else has to agree"""
    where = '%s / %s' % (x.where, y.where)
    place = [m for m in b[1] if m.what == 'where the split is placed']
    rest = [m for m in b[1] if m.what != 'where the split is placed']
    hit = []
    other = list(rest)
    for m in place:
        # only on a mask match, find_chunk_edge after and push before
        code, want = (m.got, m.want) if x.kind == 'fce' else (m.want, m.got)
        masked = any(p and c.op == 'eqz' and mask_test(c) for c, p in m.path)
        if masked and tm.is_const(code) and tm.is_const(want) and tm.cval(code) == 1 and tm.cval(want) == 0:
            hit.append(m)
        else:
            other.append(m)
    if not other:
        rep.held(nm + ' (decision, state, forced cuts)', 'equal except for the placement of a mask match', where)
    else:
        b2 = (len(other), other) + tuple(b[2:])
        ok = lambda r, q: r == q or (r[0] and q[0] and r != 'panic' and q != 'panic')
        v, t = feasible.judge(x.A, y.A, b2, n, compare=ok)
        if v == 'violation':
            rep.violation(nm, '%s [%s]' % (t, model.describe(other, 2)), where, key=nm.replace(' ', '_'))
        else:
            rep.undecided(nm, model.describe(other, 3), where)
    if hit:
        rep.violation('fastcdc: a mask match is cut before the matched byte by push and after it by find_chunk_edge',
                      model.describe(hit, 1), where, key=FCDC)
    elif not place:
        rep.held(nm + ' (placement of mask matches)', '', where)


def mask_test(c):
    """is the atom a masked test of the rolling hash"""
    a = tm.single(c.args[0])
    return a is not None and a.op == 'bw'
