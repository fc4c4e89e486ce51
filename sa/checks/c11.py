"""C11: constructors and defaults configure what they document; every way to a chunker starts it alike."""
import itertools
from .. import algo, model, feasible, evalt, tables, machine as M, terms as tm, theory as th, interp as ip
from ..terms import const, var, is_const, cval, ite, TRUE, mk
from ..interp import State, Obj, ptr, paths, isarr, Unsupported
from ..machine import C, W, Cfg
from ..spec0 import module, call, outobj, where, resolved

K = lambda v, w: const(v, w)


def check(rep):
    rep.rule = ('a constructor and the primary constructor applied to the documented parameter values build equal objects for every argument value; '
                'the primary constructors are judged by the published recurrence under the documented parameters; every conversion builds an equal initial chunker')
    m, g = module()
    tables.register()
    bases(rep)
    for nm, alg, ctor, args, base, doc, dbase, tab in alternates():
        w = where(m, m.fns['@' + ctor])
        with rep.item('constructor: ' + nm, w, 100):
            alternate(rep, 'constructor: ' + nm, alg, ctor, args, base, doc, tab, w)
    for alg, kind, fn, src in conversions():
        nm = 'initial %s: %s' % ('chunker' if kind == 'push' else 'search state', fn)
        w = where(m, m.fns['@' + fn])
        with rep.item(nm, w, 100):
            conversion(rep, nm, alg, kind, fn, src, w)


# ---- primary constructors

def stored(c):
    """the documented parameters as values"""
    a = c.args
    g = c.alg
    if g == 'gear':
        l = tm.trunc(a[0], 32)
        return [tm.shl(tm.sub(tm.shl(K(1, 32), l), K(1, 32)), tm.and_(tm.sub(K(0, 32), l), K(31, 32)))]
    if g == 'pigz':
        mask = tm.sub(tm.shl(K(1, 32), tm.zext(a[0], 32)), K(1, 32))
        return [mask, tm.lshr(mask, K(1, 32))]
    if g == 'zstd':
        return None
    if g == 'zpaq':
        k1, k2 = cval(a[1]), cval(a[3])
        return [x for x, k in ((a[2], k1), (a[4], k2)) if k != 2] + [tm.shl(K(1, 32), tm.sub(K(32, 32), tm.zext(a[0], 32)))]
    return [x for x in a if x.op == 'poly']


def swaps(c):
    idx = {'fastcdc': (1, 2, 3), 'gzip': (0, 1), 'buzt': (1, 3), 'buzb': (1, 3), 'buzs': (2, 4)}.get(c.alg)
    if not idx:
        return
    for p in itertools.permutations(idx):
        if p != idx:
            a = list(c.args)
            for i, j in zip(idx, p):
                a[i] = c.args[j]
            yield Cfg(c.alg, a, base=c.base, periods=c.periods, name=c.name)


def bases(rep):
    from .. import spec
    for alg in M.ALGS:
        for c in algo.configs(alg):
            nm = 'primary constructor: ' + M.TITLE.get(alg, alg) + c.name[len(alg):]
            with rep.item(nm, alg, 120):
                it = algo.get(c, 'push')
                if it.err:
                    it = algo.get(c, 'fce')
                if it.err:
                    rep.undecided(nm, it.err, it.where)
                    continue
                m, g = module()
                w = where(m, m.fns['@' + alg + '_cfg'])
                best = model.match(it.A, it.S)
                if best[0] == 0:
                    rep.held(nm, 'the chunker built with the documented parameters computes the published recurrence under exactly these parameters', w)
                    rep.count(constructors=1)
                    continue
                # is it the recurrence or the parameters
                ex = stored(c)
                cells = [v for s, v in it.mc.cfg0.cells.values() if not isinstance(v, tuple)]
                have = ex is not None and all(any(x is y or x.w == y.w and not th.diff(x, y, c.base) for y in cells) for x in ex)
                blame = not have
                if have:
                    for c2 in swaps(c):
                        if model.match(it.A, spec.spec(c2, it.kind))[0] == 0:
                            blame = True
                            break
                if not blame:
                    rep.undecided(nm, 'the recurrence differs; the parameters are stored as documented', w)
                    continue
                v, t = feasible.judge(it.A, it.S, best, 60000)
                if v == 'violation':
                    rep.violation(nm, 'the parameters are not the documented ones: %s [%s]' % (t, model.describe(best[1], 2)), w)
                else:
                    rep.undecided(nm, model.describe(best[1], 2), w)


# ---- other constructors

def favg(x):
    """floor(log2(x / 4)), as the floating point computation of the crate; other computations are compared by value"""
    f = mk('fp', 64, ('uitofp', x))
    return f


def alternates():
    """name, algorithm, constructor, arguments, domain, documented primary arguments, periods, table"""
    S = 'self'
    yield 'Gear32::default is 8 KiB average', 'gear', 'gear_default', [], [], [C(13)], [], None
    yield 'Mii::default is w=5', 'mii', 'mii_default', [], [], [C(5)], [], None
    yield 'PigzRsyncable::default is 12 bits', 'pigz', 'pigz_default', [], [], [K(12, 8)], [], None
    yield 'RollSum::default has a window of 64', 'bup', 'bup_default', [], [], [C(64)], [], None
    yield 'GzipRsyncable::default is window 8192, modulus 4096', 'gzip', 'gzip_default', [], [], [C(8192), C(4096)], [], None
    yield 'FastCdc::default is 2 KiB, 8 KiB, 64 KiB with the 64 bit gear table', 'fastcdc', 'fastcdc_default', [], [], [S, C(2048), C(8192), C(65536)], [], 'GEAR_64'
    yield 'Zstd::default is 8 MiB', 'zstd', 'zstd_default', [], [], [C(8 << 20)], [], None
    s = var('salt', 8)
    yield 'BuzHash::new_nom is k=67, mask 2^12-1, maximum 2^24 over the silvasur table', 'buzs', 'buzs_nom', [s], [], [S, s, C(67), K(4095, 32), C(1 << 24)], [], 'GO_BUZHASH'
    pw = lambda a: [a, C(0), tm.shl(C(64), tm.sub(tm.zext(a, 64), C(10))), C(1), tm.shl(C(8128), tm.sub(tm.zext(a, 64), C(10)))]
    yield 'Zpaq::default is 64 KiB average, 4 KiB minimum, 508 KiB maximum', 'zpaq', 'zpaq_default', [], [], [K(16, 8), C(0), C(4096), C(1), C(520192)], [], None
    a = var('avg', 8, 10, 32)
    yield 'Zpaq::with_average_size_pow_2', 'zpaq', 'zpaq_cfg_pow2', [a], [], pw(a), [], None
    mx = W('max', 8, (1 << 34))
    yield 'Zpaq::with_max_size', 'zpaq', 'zpaq_cfg_max', [mx], [], [('log', mx), C(0), tm.lshr(mx, C(6)), C(1), mx], [], None
    KN = ['included', 'excluded', 'none']
    for lt in range(3):
        for ht in range(3):
            lo, hi = W('lo', 8 if ht == 2 else 0, 1 << 28), W('hi', 9, 1 << 34)
            if ht == 0:
                av = ('log', hi)
            elif ht == 1:
                av = ('log', tm.sub(hi, C(1)))
            elif lt == 0:
                av = ('log', tm.mul(C(64), lo))
            elif lt == 1:
                av = ('log', tm.mul(C(64), tm.add(lo, C(1))))
            else:
                av = K(16, 8)
            yield 'Zpaq::with_range, minimum %s, maximum %s' % (KN[lt], KN[ht]), 'zpaq', 'zpaq_cfg_range', [C(lt), lo, C(ht), hi], [], \
                [av, C(lt), lo, C(ht), hi], [], None


def log4(x, shape):
    """the average exponent for a maximum x: the float term where the code has it, a value otherwise"""
    return None


def find_log(v):
    """the floating point terms floor(log2(x * 1/4)) inside a value, by their integer argument"""
    out = []
    for a in tm.atoms_of(v):
        if a.op == 'uf' and a.args[0].startswith('fptoui'):
            f = a.args[1]
            if f.op == 'fp' and str(f.args[0]).startswith('log2') and f.args[1].op == 'fp' and f.args[1].args[0] in ('fmul', 'fdiv'):
                q = f.args[1]
                k = q.args[2]
                u = q.args[1]
                try:
                    z = float(k.args[0])
                except Exception:
                    continue
                if q.args[0] == 'fmul' and z != .25 or q.args[0] == 'fdiv' and z != 4:
                    continue
                if u.op == 'fp' and u.args[0] == 'uitofp':
                    out.append((a, u.args[1]))
    return out


def flat(o, lo=0, hi=1 << 40, to=0, out=None):
    """cells of an object, copies of other objects expanded"""
    if out is None:
        out = {}
    for off, (s, v) in sorted(o.cells.items()):
        a, b = max(off, lo), min(off + s, hi)
        if a >= b:
            continue
        if isinstance(v, tuple):
            flat(v[1], v[2] + a - off, v[2] + b - off, to + a - lo, out)
        elif (a, b) == (off, off + s):
            out[to + a - lo] = (s, v)
        else:
            out[to + a - lo] = (b - a, o.load(a, b - a))
    return out


def obj_diff(a, b, sa, sb, gate, base):
    """paths on which two objects differ"""
    out = []
    fa, fb = flat(a), flat(b)
    for off in sorted(set(fa) | set(fb)):
        x, y = fa.get(off), fb.get(off)
        if x and y and x[0] == y[0]:
            u, v = x[1], y[1]
        else:
            n = max(z[0] for z in (x, y) if z)
            if x and isarr(x[1]) or y and isarr(y[1]):
                raise Unsupported('array laid out differently')
            u = x[1] if x and x[0] == n else a.load(off, n)
            v = y[1] if y and y[0] == n else b.load(off, n)
        if u is v:
            continue
        if isarr(u) or isarr(v):
            out.append(([], u, v))
        elif u.op == 'undef' or v.op == 'undef':
            if x and y:
                out.append(([], u, v))
        elif u.op == 'ptr' and v.op == 'ptr':
            p, q = M.content(u, sa), M.content(v, sb)
            if p is None or p is not q:
                out.append(([], u, v))
        else:
            out += dif(u, v, gate, base)
    return out


def dif(x, y, gate, base):
    U = mk('undef', x.w, ())
    if x.w != y.w:
        return [([], x, y)]
    return th.diff(ite(gate, x, U), ite(gate, y, U), base)


def numbers(x, y, path):
    """a valuation under which the two values differ: floats are valuated too"""
    return evalt.apart(path, x, y)


def alternate(rep, nm, alg, ctor, args, base, doc, tab, w):
    st = State()
    st.setarray('table', ip.mem('init', 'table'))
    o = outobj(st, 'cfg')
    r = call(ctor, [o] + args, st, base=base, tag='#c')
    if r.state is None:
        rep.violation(nm, 'the constructor never returns', w)
        return
    A = r.state.objs['cfg']
    doc = list(doc)
    if tab:
        # the table the code refers to, by content
        for off, (s, v) in sorted(A.cells.items()):
            if not isinstance(v, tuple) and not isarr(v) and v.op == 'ptr':
                doc[0] = v
                break
        else:
            raise Unsupported('no table in the configuration')
        if not model.table_is(doc[0].args[0], tab):
            known = [t for t in ('GEAR_32', 'GEAR_64', 'GO_BUZHASH', 'BORG_BUZHASH_BASE') if model.table_is(doc[0].args[0], t)]
            (rep.violation if known or ip.GDATA.get(doc[0].args[0]) else rep.undecided)(nm, 'the table is not %s%s' % (tab, (' but ' + known[0]) if known else ''), w)
            return
    logs = []
    if isinstance(doc[0], tuple):
        arg = doc[0][1]
        fs = []
        for s, v in A.cells.values():
            if not isinstance(v, tuple) and not isarr(v):
                fs += find_log(v)
        ok = [a for a, u in fs if not th.diff(u, arg, base)]
        # an 8 bit value standing for the documented exponent
        doc[0] = tm.atomv(ok[0]) if ok else var('log2quarter', 8, 1, 32)
        if not ok:
            logs = [(doc[0], arg)]
    st2 = State()
    st2.setarray('table', ip.mem('init', 'table'))
    o2 = outobj(st2, 'cfg')
    r2 = call(alg + '_cfg', [o2] + doc, st2, base=base, tag='#d')
    if r2.state is None:
        raise Unsupported('documented parameters are rejected')
    B = r2.state.objs['cfg']
    gate = tm.band(r.gate, r2.gate)
    ds = obj_diff(A, B, r.state, r2.state, gate, base)
    if not ds:
        rep.held(nm, 'equal to the primary constructor with the documented parameters, for every argument', w)
        rep.count(constructors=1)
        return
    # the objects differ: do the chunkers
    text = '; '.join('%s instead of %s' % (tm.show(x)[:160], tm.show(y)[:160]) for p, x, y in ds[:2])
    if logs:
        # compare with the exact value of the documented exponent
        v, arg = logs[0]
        for p, x, y in ds:
            if x.op == 'undef' or y.op == 'undef' or x.op == 'ptr' or y.op == 'ptr':
                continue
            for env, tb, ev in evalt.sample([x, arg], [z for z in p if not mentions(z[0], v)], 1, 400):
                try:
                    q = ev(arg)
                    if q < 8 or q & (q - 1) == 0 and q > 1 << 45:
                        continue
                    e2 = dict(env)
                    e2['log2quarter'] = (q // 4).bit_length() - 1
                    if evalt.Val(e2, None)(x) != evalt.Val(e2, None)(y):
                        rep.violation(nm, '%s for %s' % (text, feasible.conf(env)), w)
                        return
                except evalt.Unknown:
                    break
        rep.undecided(nm, text, w)
        return
    judge_cfg(rep, nm, alg, ctor, args, base, doc, text, w, ds)


def mentions(c, v):
    return tm.single(v) in tm.atoms_of(tm.condv(c)) if hasattr(tm, 'condv') else False


def judge_cfg(rep, nm, alg, ctor, args, base, doc, text, w, ds):
    peel = 32 if alg == 'zstd' else 0
    per = {'bup': doc[:1], 'gzip': doc[:1], 'zstd': [C(32)], 'buzs': [doc[2], doc[4]] if alg == 'buzs' else [], 'fastcdc': doc[1:] if alg == 'fastcdc' else []}.get(alg, [])
    ca = Cfg(alg, args, base=base, ctor=ctor, periods=per, name=alg + ' by ' + ctor, peel=peel)
    cb = Cfg(alg, doc, base=base, periods=per, name=alg + ' as documented for ' + nm, peel=peel)
    ca.doc = cb
    for k in ('push', 'fce'):
        a, b = algo.get(ca, k), algo.get(cb, k)
        if a.err or b.err:
            continue
        best = model.match(a.A, b.A)
        if best[0] == 0:
            continue
        v, t = feasible.judge(a.A, b.A, best, 60000)
        if v == 'violation':
            rep.violation(nm, '%s: %s' % (text, t), w)
            return
    rep.undecided(nm, text, w)


# ---- conversions

def conversions():
    """algorithm, kind, function, where its configuration comes from"""
    for alg in M.ALGS:
        yield alg, 'push', alg + '_incr_ref', 'ref'
    for alg in ('mii', 'pigz', 'gzip', 'zstd', 'buzt', 'buzb', 'buzs'):
        yield alg, 'push', alg + '_incr_val', 'val'
    yield 'bup', 'push', 'bup_i_default', 'default'
    yield 'fastcdc', 'push', 'fastcdc_i_default', 'default'
    for alg in ('pigz', 'bup', 'zpaq'):
        yield alg, 'fce', alg + '_state_ref', 'ref'
    for alg in ('gzip', 'fastcdc', 'zstd', 'zpaq'):
        yield alg, 'fce', alg + '_s_default', 'none'
    for alg in ('buzt', 'buzb', 'buzs'):
        yield alg, 'fce', 'buz_s_default', 'none'


def conversion(rep, nm, alg, kind, fn, src, w):
    m, g = module()
    for c in algo.configs(alg):
        if src == 'default':
            c = Cfg(alg, [], ctor=alg + '_default', name=alg + ' default')
        r = M.config_state(c)
        objs = r.state.objs

        def start():
            st = State(dict(objs))
            return st, outobj(st, 'self')
        st, o = start()
        r1 = call(alg + ('_incr' if kind == 'push' else '_state'), [o, ptr('cfg')], st, base=c.base, tag='#i')
        st2, o2 = start()
        if src in ('none', 'default'):
            args = []
        elif src == 'ref':
            args = [ptr('cfg')]
        else:
            f = m.fns['@' + fn]
            args = [ptr('cfg')]
            if len(f.params) != 2 or f.params[1][1] != ('ptr',) and str(f.params[1][1]).find('ptr') < 0:
                cells = sorted(objs['cfg'].cells.items())
                args = [v for off, (s, v) in cells]
        r2 = call(fn, [o2] + args, st2, base=c.base, tag='#i')
        if r1.state is None or r2.state is None:
            raise Unsupported('does not return')
        gate = tm.band(r1.gate, r2.gate)
        ds = obj_diff(r2.state.objs['self'], r1.state.objs['self'], r2.state, r1.state, gate, c.base)
        if ds:
            break
        if src == 'default':
            break
    else:
        ds = []
    if not ds:
        rep.held(nm, 'equal to the initial %s of the trait conversion' % ('chunker' if kind == 'push' else 'search state'), w)
        rep.count(conversions=1)
        return
    text = '; '.join('%s instead of %s' % (tm.show(x)[:160], tm.show(y)[:160]) for p, x, y in ds[:2])
    # do they behave differently
    base_it = algo.get(c, kind)
    if base_it.err:
        rep.undecided(nm, text + '; ' + base_it.err, w)
        return
    other = algo.started(c, kind, r2, fn)
    if other.err:
        rep.undecided(nm, text + '; ' + other.err, w)
        return
    best = model.match(other.A, base_it.A)
    v, t = feasible.judge(other.A, base_it.A, best, 60000) if best[0] else ('same', '')
    if v == 'violation':
        rep.violation(nm, '%s: %s' % (text, t), w)
    elif v == 'same':
        rep.held(nm, 'the chunkers behave alike', w)
    else:
        rep.undecided(nm, text, w)
