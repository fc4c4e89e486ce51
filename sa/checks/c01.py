"""C01: the slice iterators, over a completely unknown chunker, compared with their definition."""
from .. import terms as tm, theory as th, mir
from ..terms import const, var, ite, band, bor, bnot, TRUE, FALSE, is_const, cval
from ..spec0 import *
from ..interp import paths as paths_of

Z = const(0, 64)
ONE = const(1, 64)


def push(c, p, n):
    k = (c, p, n)
    return tm.eq(tm.uf('push.tag', 64, *k), Z), tm.umin(tm.uf('push.idx', 64, *k), n), tm.uf('push.chunker', 64, *k)


def spec_all(c, p, n):
    """IterSlices::next: item (tag, ptr, len), chunker, rem"""
    emp = tm.eq(n, Z)
    none, idx, c2 = push(c, p, n)
    tag = ite(emp, Z, ONE)
    ln = ite(none, n, idx)
    return (tag, p, ln), ite(emp, c, c2), tm.add(p, ln), ite(emp, n, tm.sub(n, ln))


def spec_strict(c, p, n):
    none, idx, c2 = push(c, p, n)
    tag = ite(none, Z, ONE)
    return (tag, p, idx), c2, ite(none, p, tm.add(p, idx)), ite(none, n, tm.sub(n, idx))


def same(rep, name, got, want, cond, where, what):
    """got == want wherever cond holds"""
    g = ite(cond, got, Z) if got.op != 'ite' or True else got
    w = ite(cond, want, Z)
    d = th.diff(g, w)
    if d:
        return '%s under %s: code gives %s, definition gives %s' % (what, witness(d[0][0]), tm.show(d[0][1]), tm.show(d[0][2]))
    return None


def check(rep):
    rep.rule = ('the compiled adapters are instantiated with an opaque chunker whose answers are uninterpreted functions (index at '
                'most the slice length); the gated value graph of construction, one step, remainder and parts must equal the '
                'definition, and the iterator after a step must be the iterator freshly built from the remaining slice '
                '(induction over the number of items)')
    m, g = module()
    c, n = var('c', 64), var('n', 64, 0, BIG)
    d = ptr('data')
    base_st = lambda: State({'data': Obj('data', 'sym')})

    def chk(name, fn, fnargs, want, cond_of=None):
        """want: list of (object, offset, value, condition)"""
        w = where(m, m.fns['@' + fn]) if '@' + fn in m.fns else fn
        st = base_st()
        for a in fnargs:
            if a.op == 'ptr' and a.args[0] not in st.objs:
                outobj(st, a.args[0])
        try:
            r = call(fn, fnargs, st)
        except Unsupported as e:
            rep.undecided(name, str(e), w)
            return None
        bad = live_panics(r)
        if bad:
            rep.violation(name, 'panics although the chunker reports a valid index: %s' % (bad[0].where,), bad[0].where[0])
            return r
        msgs = []
        for o, off, val, cond, what in want:
            got = r.state.objs[o].load(off, 8)
            x = same(rep, name, got, val, cond, w, what)
            if x:
                msgs.append(x)
        if msgs:
            rep.violation(name, '; '.join(msgs[:2]), w, key=name.replace(' ', '_'))
        else:
            rep.held(name, 'value graph of %s equals the definition' % fn, w)
        return r

    def live_panics(r):
        return [q for q in r.panics if any(not th.infeasible(p) for p in paths_of(q.gate))]

    A = [ptr('out'), c, d, n]
    chk('iter_slices().into_parts() gives back chunker and slice', 'it_round', A,
        [('out', 0, c, TRUE, 'chunker'), ('out', 8, d, TRUE, 'slice'), ('out', 16, n, TRUE, 'length')])
    chk('iter_slices_strict().into_parts() gives back chunker and slice', 'its_round', A,
        [('out', 0, c, TRUE, 'chunker'), ('out', 8, d, TRUE, 'slice'), ('out', 16, n, TRUE, 'length')])
    for nm, fn, spec in (('IterSlices', 'it', spec_all), ('IterSlicesStrict', 'its', spec_strict)):
        (tag, p, ln), c2, rp, rn = spec(c, d, n)
        some = tm.eq(tag, ONE)
        want = [('out', 0, tag, TRUE, 'some/none'), ('out', 8, p, some, 'item start'), ('out', 16, ln, some, 'item length'),
                ('p', 0, c2, TRUE, 'chunker'), ('p', 8, rp, bnot(tm.eq(rn, Z)), 'remainder start'), ('p', 16, rn, TRUE, 'remainder length')]
        chk(nm + '::next yields the reported prefix and keeps the rest', fn + '_step', [ptr('out'), ptr('p'), c, d, n], want)
        induct(rep, nm, fn, spec, base_st, live_panics)
    want = [('out', 8, d, bnot(tm.eq(n, Z)), 'remainder start'), ('out', 16, n, TRUE, 'remainder length'),
            ('p', 0, c, TRUE, 'chunker'), ('p', 16, Z, TRUE, 'length left')]
    chk('IterSlicesStrict::take_rem returns the remainder and leaves an empty slice', 'its_take_step',
        [ptr('out'), ptr('p'), c, d, n], want)
    # nobody overrides the provided methods
    with mir.Scratch() as sc:
        ok, out, txt = mir.lib(sc, None)
    import re
    over = [h for h in mir.items(txt or '') if re.match(r'fn (?!ChunkIncr::)\S.*::iter_slices(_strict)?\(', h.split('(')[0] + '(')]
    if over:
        rep.undecided('adapters are not overridden', 'an algorithm overrides the provided adapter: ' + over[0][:200])
    else:
        rep.held('adapters are not overridden', 'no implementation in the library replaces iter_slices or iter_slices_strict')


def induct(rep, nm, fn, spec, base_st, live_panics):
    """after next, the iterator is bit for bit the one freshly built from (chunker', rest)"""
    m, g = module()
    c, n = var('c', 64), var('n', 64, 0, BIG)
    d = ptr('data')
    name = nm + ': a step leaves the iterator of the rest'
    w = where(m, m.fns['@%s_next' % fn])
    try:
        st = base_st()
        outobj(st, 'it')
        r0 = call(fn + '_new', [ptr('it'), c, d, n], st)
        fresh = r0.state.objs['it']
        st = State(dict(r0.state.objs))
        outobj(st, 'out')
        r = call(fn + '_next', [ptr('it'), ptr('out')], st)
        (tag, p, ln), c2, rp, rn = spec(c, d, n)
        nc, np_, nn = tm.single(c), None, tm.single(n)
        bad = None
        it = r.state.objs['it']
        for off in sorted(set(fresh.cells) | set(it.cells)):
            size = (fresh.cells.get(off) or it.cells.get(off))[0]
            f = fresh.load(off, size)
            got = it.load(off, size)
            if f is d:
                want = rp
                cond = bnot(tm.eq(rn, Z))
            else:
                want = tm.subst(f, {nc: c2, nn: rn})
                cond = TRUE
            x = th.diff(ite(cond, got, const(0, got.w)), ite(cond, want, const(0, got.w)))
            if x:
                bad = 'field at byte %d: %s instead of %s' % (off, tm.show(x[0][1]), tm.show(x[0][2]))
                break
        if bad is None:
            rep.held(name, 'state after next equals the freshly built state', w)
            return
        # not inductive as is: compare three consecutive items with the definition
        st = State(dict(r0.state.objs))
        cc, pp, nl = c, d, n
        live = TRUE
        for k in range(3):
            outobj(st, 'out')
            r = call(fn + '_next', [ptr('it'), ptr('out')], st, tag=str(k))
            (tag, p, ln), cc2, rp, rn = spec(cc, pp, nl)
            o = r.state.objs['out']
            some = band(live, tm.eq(tag, ONE))
            for what, got, want, cond in (('some/none', o.load(0, 8), tag, live), ('item start', o.load(8, 8), p, some),
                                          ('item length', o.load(16, 8), ln, some)):
                x = th.diff(ite(cond, got, Z), ite(cond, want, Z))
                if x:
                    rep.violation(name, 'item %d, %s under %s: code gives %s, definition gives %s' % (
                        k + 1, what, witness(x[0][0])[:400], tm.show(x[0][1]), tm.show(x[0][2])), w)
                    return
            live = some
            cc, pp, nl = cc2, rp, rn
            st = State(dict(r.state.objs))
        rep.undecided(name, 'extra iterator state: ' + bad, w)
    except Unsupported as e:
        rep.undecided(name, str(e), w)
