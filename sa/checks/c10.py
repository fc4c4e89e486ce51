"""C10: every algorithm's transition function is its published recurrence."""
from .. import algo, model, feasible, tables, evalt, machine as M, terms as tm, theory as th, interp as ip
from ..terms import const, var, is_const, cval
from ..spec0 import module, call, outobj, where, State, Unsupported


def check(rep):
    rep.rule = ('the one-byte transition function of each compiled interface (split decision, placement, every state cell) is '
                'extracted as a value graph over configuration, position and recent bytes and matched inductively with the published '
                'recurrence; lookup tables are compared by content')
    for it in algo.every():
        nm = 'recurrence: ' + it.name
        if it.err:
            rep.undecided(nm, it.err, it.where)
            continue
        best = model.match(it.A, it.S)
        v, t = feasible.judge(it.A, it.S, best, 60000 if rep.tier == 'quick' else 400000, watch=low20(it, best))
        if v == 'held':
            rep.held(nm, 'split decision, placement and %d accumulators equal to the published recurrence for all configurations and histories; '
                     '%d other state cells are closed forms of the position' % (len(it.A.accs), len(it.mc.bind)), it.where)
            rep.count(transition_functions=1, state_cells=len(it.mc.cells))
        elif v == 'violation':
            rep.violation(nm, '%s [%s]' % (t, model.describe(best[1], 2)), it.where, key=nm.replace(' ', '_'))
        else:
            rep.undecided(nm, model.describe(best[1], 3), it.where)
    tabs(rep)
    bup(rep)


def low20(it, best):
    """zstd splits too rarely to wait for one: its decision reads the low bits of the hash"""
    if it.c.alg != 'zstd' or best[0] == 0:
        return None
    pair = [(ka, kb) for ka, (kb, t) in best[2].items() if kb is not None]

    def w(a, b):
        for ka, kb in pair:
            x = a.acc[tm.single(it.A.accs[ka][2]).args[0]]
            y = b.acc[tm.single(it.S.accs[kb][2]).args[0]]
            if (x ^ y) & 0xfffff:
                return True
        return False
    return w


def tabs(rep):
    m, g = module()
    for fn, table in (('tab_gear32', 'GEAR_32'), ('tab_gear64', 'GEAR_64'), ('tab_buz', 'GO_BUZHASH'), ('tab_borg', 'BORG_BUZHASH_BASE')):
        nm = 'table: ' + table
        w = tables.WIDTH[table]
        st = State()
        o = outobj(st, 'out')
        i = var('i', 8)
        try:
            r = call(fn, [o, i], st)
            v = r.state.objs['out'].load(0, w)
        except Unsupported as e:
            rep.undecided(nm, str(e))
            continue
        a = tm.single(v) if v.op == 'poly' else None
        if a is None or a.op != 'tbl':
            rep.undecided(nm, 'not a plain table lookup: ' + tm.show(v)[:200])
            continue
        want = tables.expected(table)
        bad = None
        if a.args[1] is not tm.mul(tm.zext(i, 64), const(w, 64)):
            rep.undecided(nm, 'index ' + tm.show(a.args[1]))
            continue
        for k in range(256):
            x = ip.gread(a.args[0], const(k * w, 64), w)
            if not is_const(x):
                bad = 'unreadable'
                break
            if cval(x) != want[k]:
                bad = 'entry %d is %#x, published %#x' % (k, cval(x), want[k])
                break
        if bad == 'unreadable':
            rep.undecided(nm, 'content of %s is not visible' % a.args[0])
        elif bad:
            rep.violation(nm, bad, 'src/' + {'GEAR_32': 'gear_table/gear32.rs', 'GEAR_64': 'gear_table/gear64.rs'}.get(table, 'buzhash_table.rs'),
                          key='table:' + table)
        else:
            rep.held(nm, '256 entries equal')
            rep.count(table_entries=256)
    nm = 'table: borg_buzhash_table(seed)'
    st = State()
    o = outobj(st, 'out')
    seed = var('seed', 32)
    try:
        r = call('borg_table', [o, seed], st, limit=600)
        p = r.state.objs['out'].load(0, 8)
        arr = r.state.objs[p.args[0]].cells[0][1]
        bad = None
        want = tables.expected('BORG_BUZHASH_BASE')
        for k in range(256):
            x = ip.m_read(arr, const(4 * k, 64), 4)
            if x is not tm.xor_(seed, const(want[k], 32)):
                if not evalt.apart([], x, tm.xor_(seed, const(want[k], 32))):
                    raise Unsupported('entry %d is %s' % (k, tm.show(x)[:100]))
                bad = 'entry %d is %s, published %#x ^ seed' % (k, tm.show(x)[:100], want[k])
                break
        if bad:
            rep.violation(nm, bad, 'src/buzhash_table.rs', key='table:borg')
        else:
            rep.held(nm, 'every entry is the base entry xor the seed')
    except (Unsupported, AttributeError, KeyError) as e:
        rep.undecided(nm, str(e))


def bup(rep):
    """the rolling sum's own public interface: roll_byte, at_split, digest"""
    it = algo.get(algo.configs('bup')[0], 'push')
    names = ['bup: roll_byte', 'bup: at_split', 'bup: digest']
    if it.err:
        for nm in names:
            rep.undecided(nm, it.err, it.where)
        return
    best = model.match(it.A, it.S)
    if best[0]:
        for nm in names:
            rep.undecided(nm, 'the state is not related to the published sums (see the recurrence obligation)', it.where)
        return
    score, mm, rel, accmap, arrmap, base = best
    mc, R = it.mc, it.R
    m, g = module()
    ren = lambda v: model.rename(R.sub(v), accmap, arrmap)
    S1, S2 = (tm.single(it.S.accs[k][2]) for k in ('s1', 's2'))
    S1, S2 = tm.atomv(S1), tm.atomv(S2)

    def verdict(nm, fn, pairs):
        w = where(m, m.fns['@' + fn])
        for what, got, want in pairs:
            for path, x, y in th.diff(got, want, R.base):
                if evalt.apart(path, x, y):
                    rep.violation(nm, '%s: code %s, published %s' % (what, tm.show(x)[:300], tm.show(y)[:300]), w, key=nm.replace(' ', '_'))
                else:
                    rep.undecided(nm, '%s: %s against %s' % (what, tm.show(x)[:300], tm.show(y)[:300]), w)
                return
        rep.held(nm, 'equal for every state', w)
    try:
        st = mc.state()
        r = call('bup_roll_byte', [ip.ptr('self'), M.b_], st, base=R.base)
        o = r.state.objs['self']
        pairs = []
        for off, (size, v) in mc.cells.items():
            if ip.isarr(v):
                continue
            got = ren(o.load(off, size))
            if mc.kind_of.get(off) == 'acc':
                kb = rel[off][0]
                pairs.append(('the sum %s' % kb, got, it.S.roll[kb]))
            elif off in R.cand:
                pairs.append(('the cell at offset %d' % off, got, R.sub(R.cand[off].next(R.env))))
        verdict(names[0], 'bup_roll_byte', pairs)
        st = mc.state()
        oo = outobj(st, 'out')
        r = call('bup_at_split', [ip.ptr('self'), oo], st, base=R.base)
        hit = tm.eq(tm.and_(S2, const(8191, 32)), const(8191, 32))
        verdict(names[1], 'bup_at_split', [('the answer', ren(r.state.objs['out'].load(0, 8)), tm.ite(hit, const(1, 64), const(0, 64)))])
        st = mc.state()
        oo = outobj(st, 'out')
        r = call('bup_digest', [ip.ptr('self'), oo], st, base=R.base)
        dig = tm.or_(tm.shl(S1, const(16, 32)), tm.and_(S2, const(0xffff, 32)))
        verdict(names[2], 'bup_digest', [('the digest', ren(r.state.objs['out'].load(0, 8)), tm.zext(dig, 64))])
    except Unsupported as e:
        rep.undecided('bup: public rolling sum', str(e))
