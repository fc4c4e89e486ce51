"""C03: incremental results do not depend on how the input is divided."""
from .. import algo, stream, valued, feasible, evalt, tables, machine as M, terms as tm
from ..interp import Unsupported

SLOW = ('zpaq',)


def check(rep):
    rep.rule = ('from an arbitrary reachable state, the value graph of one call on a piece is equal to the composition of the value graphs of '
                'the calls on its bytes up to the first split: same panics, split position and state left behind; an empty piece changes nothing')
    run(rep, 'push')


def run(rep, kind):
    tables.register()
    items = []
    for alg in M.ALGS:
        for c in algo.configs(alg):
            for v in stream.variants(c):
                items.append(algo.get(v, kind))
    for it in items:
        if it.err:
            rep.undecided(it.name, it.err, it.where)
            continue
        rep.count(transition_functions=1)
        for L in lengths(it, rep.tier):
            nm = '%s: a piece of %d bytes' % (it.name, L) if L else '%s: an empty piece' % it.name
            with rep.item(nm, it.where, 45 if rep.tier == 'quick' else 100):
                one(rep, nm, it, L)
        if it.mc.peeled:
            first(rep, it)
    for a in M.ALGS:
        sensitive(rep, a, kind)


COVERED = {'zstd': (32,)}


def sensitive(rep, alg, kind):
    """the constants that lengths and positions are tested against lie within the analysed pieces"""
    it = algo.get(algo.configs(alg)[0], kind)
    nm = 'tests of lengths: %s' % it.name
    ks, bs = valued.harvest(alg, kind)
    out = {k: w for k, w in ks.items() if k > 3 and k not in COVERED.get(alg, ())}
    if not out:
        rep.held(nm, 'no 64-bit value of the call is compared with, divided, shifted or masked by a constant beyond the analysed pieces%s'
                 % (' (%s)' % ', '.join(map(str, ks)) if ks else ''), it.where)
        rep.count(call_bodies=1)
    else:
        k = min(out)
        rep.undecided(nm, 'a length or position is tested against %s at %s, beyond the analysed pieces' % (', '.join(map(str, sorted(out))), out[k]), out[k])


def lengths(it, tier):
    if it.c.alg in SLOW:
        return [0, 2] if tier == 'quick' else [0, 2, 3]
    ls = [0, 2, 3]
    if it.c.alg == 'gear':
        ls += [5, 9, 17]
    elif it.c.alg == 'zstd':
        ls += [5, 8]
    if tier != 'quick':
        ls += [4] + ([33] if it.c.alg == 'gear' else [5, 9] if it.c.alg not in ('fastcdc', 'zstd', 'pigz') else [])
    return sorted(set(ls))


def one(rep, nm, it, L):
    a, b, base, ds = stream.bounded(it.mc, it.R, L)
    if not ds:
        rep.held(nm, 'the value graphs of one call and of the calls on its bytes are equal in outcome, position and %d state cells' % len(it.mc.cells), it.where)
        rep.count(compositions=1)
        return
    w = stream.confirm(it.mc, it.R, a, L, hints=hints(ds, base), budget=20000 if rep.tier == 'quick' else 100000)
    if w:
        rep.violation(nm, '%s; reached with %s after %d bytes: %s' % (ds[0].text(), feasible.conf(w[0]), w[1], w[3]), it.where, key=nm.replace(' ', '_'))
    else:
        rep.undecided(nm, '; '.join(d.text() for d in ds[:2]), it.where)


def hints(ds, base):
    out = []
    for d in ds[:6]:
        try:
            vs = [x for x in (d.got, d.want) if isinstance(x, tm.T) and x.op not in ('mem', 'ptr', 'undef')]
            for k, (env, tab, v) in enumerate(evalt.sample(vs, list(d.path), 5, 400)):
                if k > 4:
                    break
                out.append({a: b for a, b in env.items() if b < 5000})
        except (evalt.Unknown, AttributeError):
            pass
    return out


def first(rep, it):
    """the states of the first bytes of the stream, and pieces that cover them"""
    P = it.c.peel
    jobs = [(k, L) for k in range(P) for L in (0, 2)] + [(0, P + 1), (0, P + 8), (5, P + 3)]
    n = 0
    bad = []
    ok = True
    nm = '%s: pieces among the first %d bytes of the stream' % (it.name, P)
    with rep.item(nm, it.where, 120):
        for k, L in jobs:
            a, b, base, ds = stream.early(it.mc, it.R, k, L)
            n += 1
            if not ds:
                continue
            d = ds[0]
            always = all(o[1] is tm.TRUE for o in it.mc.peeled.outs[:k])
            if always and d.what in ('split', 'panics') and any(evalt.apart(x.path, x.got, x.want) for x in ds if x.what == d.what):
                rep.violation(nm, 'a piece of %d bytes after %d bytes: %s' % (L, k, d.text()), it.where, key=nm.replace(' ', '_'))
            else:
                rep.undecided(nm, 'a piece of %d bytes after %d bytes: %s' % (L, k, d.text()), it.where)
            return
        rep.held(nm, '%d pieces' % n, it.where)
        rep.count(compositions=n)
