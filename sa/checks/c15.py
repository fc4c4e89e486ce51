"""C15: copies and comparisons cover the whole value."""
import re
from .. import algo, evalt, tables, mir, valued, machine as M, terms as tm, theory as th, interp as ip
from ..terms import const, var, is_const, cval, ite, TRUE, FALSE, mk, band
from ..interp import State, Obj, ptr, mem, paths, isarr, Unsupported
from ..machine import C, W, Cfg
from ..spec0 import module, call, outobj, where
from .c11 import flat, dif

ALGS = M.ALGS + ['buzu']


def configs(alg):
    if alg == 'buzu':
        k, mx, mask, u = W('k', 1), W('max', 1), var('mask', 32), var('u', 32)
        return [Cfg('buzu', [u, k, mask, mx], periods=[k, mx])]
    if alg != 'zpaq':
        return algo.configs(alg)
    out = []
    for c in algo.configs(alg):
        # an unbounded end carries no value
        a = list(c.args)
        for k in (1, 3):
            if cval(a[k]) == 2:
                a[k + 1] = C(0)
        out.append(Cfg(c.alg, a, base=c.base, periods=c.periods, name=c.name))
    return out


class Value:
    """an arbitrary value of one type: the object and what it owns"""

    def __init__(self, objs, cells, heap):
        self.objs, self.cells, self.heap = objs, cells, heap


def other(v, memo={}):
    """the same shape with every part replaced by that of a second, unrelated value"""
    def mp(t):
        if t.op == 'var':
            return var(t.args[0] + '~', t.w, t.args[1], t.args[2])
        if t.op == 'rd':
            off = tm.subst(t.args[1], mp, memo)
            nm = t.args[0] + '~'
            return tm.ap(('rdn', nm, t.w), lambda o: tm.atomv(mk('rd', t.w, (nm, o))), off)
        if t.op == 'mem' and t.args[0] == 'init':
            return mem('init', t.args[1] + '~')
        if t.op == 'ptr' and not t.args[0].startswith('G:'):
            return ptr(t.args[0] + '~', 0) if is_const(t.args[1]) and cval(t.args[1]) == 0 else None
        return None
    return tm.subst(v, mp, memo)


def build(c, what):
    """an arbitrary value: parameters as constructed, everything a step changes unconstrained"""
    if what == 'cfg':
        r = M.config_state(Cfg(c.alg, c.args, name=c.name))
        o = r.state.objs['cfg']
        objs = {n: x for n, x in r.state.objs.items() if n != 'cfg'}
        cells = flat(o)
        return Value(objs, cells, c.base)
    kind = 'push' if what == 'i' else 'fce'
    mc = None
    bind, kinds = {}, {}
    if c.alg in M.ALGS:
        mc = algo.get([x for x in algo.configs(c.alg) if x.name == c.name][0], kind).mc
        if mc:
            kinds, bind = mc.kind_of, mc.bind
    if not mc or not kinds:
        mc = M.Machine(c, kind)
        # parameters only where the constructor shows one
        for off, (s, v) in mc.cells.items():
            if not isarr(v) and (v.op == 'ptr' or not is_const(v)):
                kinds[off], bind[off] = 'param', v
    objs = {n: x for n, x in mc.st0.objs.items() if n not in ('self', 'cfg')}
    cells = {}
    for off, (s, v) in mc.cells.items():
        if isarr(v):
            cells[off] = (s, mem('init', 'self+%d' % off))
        elif kinds.get(off) in ('param', 'ptr') and off in bind:
            cells[off] = (s, bind[off])
        else:
            cells[off] = (s, var('self+%d' % off, 8 * s, 0, 1 if off in mc.bools else None))
    for nm in mc.arrays:
        if nm.startswith('heap:'):
            o = Obj(nm, 'array', {0: (1 << 62, mem('init', nm))})
            objs[nm] = o
    return Value(objs, cells, c.base)


def pair(v, u=None):
    """state with two unrelated values a and b of the type"""
    u = u or v
    objs = dict(v.objs)
    a, b = Obj('a', 'undef'), Obj('b', 'undef')
    memo = {}
    for off, (s, x) in v.cells.items():
        a.cells[off] = (s, x)
    for off, (s, x) in u.cells.items():
        b.cells[off] = (s, other(x, memo))
    for nm, o in list(v.objs.items()):
        if nm.startswith('G:'):
            continue
        o2 = Obj(nm + '~', o.kind)
        for off, (s, x) in o.cells.items():
            o2.cells[off] = (s, x if isinstance(x, tuple) else other(x, memo))
        objs[nm + '~'] = o2
    objs['a'], objs['b'] = a, b
    return State(objs)


TYPES = {'cfg': ('%s_clone', '%s_eq'), 'i': ('%s_i_clone', '%s_i_eq'), 's': ('%s_s_clone', '%s_s_eq')}
WHAT = {'cfg': 'configuration', 'i': 'incremental chunker', 's': 'search state'}


def names(alg, what):
    cl, eq = (x % alg for x in TYPES[what])
    if alg.startswith('buz') and what == 's':
        cl, eq = 'buz_s_clone', 'buz_s_eq'
    return cl, eq


def check(rep):
    rep.rule = ('every clone function builds an object equal to its argument in every field, memory behind owned pointers included; every comparison '
                'is the conjunction of the comparisons of all fields and owned memory')
    m, g = module()
    tables.register()
    for alg in ALGS:
        cs = configs(alg)
        for what in ('cfg', 'i', 's'):
            if alg in ('buzb', 'buzs', 'buzu') and what == 's':
                continue
            cl, eq = names(alg, what)
            for fn, f in ((cl, clone), (eq, equal)):
                if '@' + fn not in m.fns:
                    continue
                for c in cs if f is equal or what != 's' else cs[:1]:
                    nm = '%s of the %s %s%s' % ('copy' if f is clone else 'comparison', M.TITLE.get(alg, alg), WHAT[what], c.name[len(c.alg):])
                    w = where(m, m.fns['@' + fn])
                    if alg == 'gzip' and what == 'i' and f is clone:
                        with rep.item(nm, w, 100):
                            why = fieldwise(rep, nm, 'gzip::GzipRsyncableIncr', w)
                            if why:
                                large(rep, nm, alg, cl, w, why)
                        continue
                    with rep.item(nm, w, 60):
                        f(rep, nm, c, what, fn, w)
    hashes(rep, m)
    rings(rep, m)
    kinds(rep, m)


TRUSTED = re.compile(r'&?(std|core|alloc)::[\w:]+(<(u8|u16|u32|u64|usize|bool|\[u8\])>)?$')
SCALAR = re.compile(r'(u8|u16|u32|u64|u128|usize|bool|i8|i16|i32|i64)$')


def fieldwise(rep, nm, ty, w):
    """a copy that copies every field by that field's own copy function (the standard library's are taken to copy)"""
    with mir.Scratch() as sc:
        ok, out, txt = mir.lib(sc, None)
    its = {}
    for h, body in mir.items(txt or '').items():
        x = re.match(r'fn \S.*>::clone\(_1: &([\w:]+)\) -> ([\w:]+) \{', h)
        if x and x.group(1) == x.group(2):
            its.setdefault(x.group(1), []).append(body)
    done, todo = {}, [ty]
    while todo:
        t = todo.pop()
        if t in done:
            continue
        if len(its.get(t, ())) != 1:
            return 'no one copy function of %s' % t
        try:
            done[t], more = straight(its[t][0], t)
        except ValueError as e:
            return 'copy of %s: %s' % (t, e)
        todo += more
    n = sum(done.values())
    rep.held(nm, '%d fields of %s copied, each by its own copy function' % (n, ', '.join(sorted(done))), w)
    rep.count(fields=n)


def straight(body, ty):
    """(fields, crate types whose copy functions are called) of a copy function without branches; ValueError otherwise"""
    blocks, cur = {}, None
    for line in body.split('\n'):
        line = line.strip()
        x = re.match(r'(bb\d+)( \(cleanup\))?: \{$', line)
        if x:
            cur = blocks.setdefault(x.group(1), [])
        elif cur is not None and line not in ('}', ''):
            cur.append(line.rstrip(';'))
    env, more, seen = {}, [], set()
    b = 'bb0'
    while True:
        if b in seen or b not in blocks:
            raise ValueError('control flow')
        seen.add(b)
        nxt = None
        for line in blocks[b]:
            if re.match(r'Storage(Live|Dead)\(|nop$|// ', line):
                continue
            x = re.match(r'(_\d+) = &\(\(\*_1\)\.(\d+): .*\)$', line)
            if x:
                env[x.group(1)] = ('ref', int(x.group(2)))
                continue
            x = re.match(r'(_\d+) = copy \(\*(_\d+)\)$', line)
            if x and env.get(x.group(2), ' ')[0] == 'ref':
                env[x.group(1)] = ('val', env[x.group(2)][1])
                continue
            x = re.match(r'(_\d+) = copy \(\(\*_1\)\.(\d+): .*\)$', line)
            if x:
                env[x.group(1)] = ('val', int(x.group(2)))
                continue
            x = re.match(r'(_\d+) = (?:copy|move) (_\d+)$', line)
            if x and x.group(2) in env:
                env[x.group(1)] = env[x.group(2)]
                continue
            x = re.match(r'(_\d+) = <(.*) as std::clone::Clone>::clone\((?:copy|move) (_\d+)\) -> \[return: (bb\d+), unwind [^\]]*\]$', line)
            if x and env.get(x.group(3), ' ')[0] == 'ref':
                t = x.group(2)
                if not TRUSTED.match(t) and not SCALAR.match(t):
                    if not re.match(r'[\w:]+$', t):
                        raise ValueError('copy of a ' + t)
                    more.append(t)
                env[x.group(1)] = ('val', env[x.group(3)][1])
                nxt = x.group(4)
                continue
            x = re.match(r'goto -> (bb\d+)$', line)
            if x:
                nxt = x.group(1)
                continue
            x = re.match(r'_0 = ([\w:]+) \{ (.*) \}$', line)
            if x and x.group(1) == ty:
                fs = [f.split(': ', 1)[1] for f in x.group(2).split(', ')]
                for i, f in enumerate(fs):
                    if env.get(re.sub(r'^(move|copy) ', '', f)) != ('val', i):
                        raise ValueError('field %d is %s' % (i, f))
                env['_0'] = len(fs)
                continue
            if line == 'return' and '_0' in env:
                return env['_0'], more
            raise ValueError(line[:100])
        b = nxt


def large(rep, nm, alg, fn, w_, why):
    """not decided by the rule: windows near the constants the copy function tests lengths against"""
    lens, _ = valued.harvest(alg, 'i_clone')
    for x in sorted(lens):
        for w in (x, x + 1, 2 * x, x - 1):
            bad = x > 3 and differs(alg, fn, w, x)
            if bad:
                rep.violation(nm, bad, w_)
                return
    rep.undecided(nm, why, w_)


def differs(alg, fn, w, x):
    c = [c for c in algo.configs(alg) if c.alg == alg][0]
    d = valued.Drive(c, 'push', {'w': w, 'm': (1 << 40) - 87})
    try:
        st = d.start
        n = 0
        for ln in (x + 1, 1, x - 1):
            r = d.call(st, [(n + i) * 37 % 251 + 1 for i in range(ln)])
            if r == 'panic':
                return None
            _, _, st = r
            n += ln
            s1 = State(dict(st.objs))
            o = outobj(s1, 'copy')
            q = call(fn, [o, ptr('self')], s1, tag='#cl', limit=valued.LIMIT)
            if q.state is None:
                return 'with a window of %d: copying after %d bytes never returns' % (w, n)
            a, b = logical(st.objs['self'], st), logical(q.state.objs['copy'], q.state)
            if a is None or b is None:
                return None
            for i, (u, v) in enumerate(zip(a, b)):
                if u is not v and not isinstance(u, str) and not isinstance(v, str) and is_const(u) and is_const(v) or isinstance(u, str) != isinstance(v, str):
                    return 'with a window of %d: after %d bytes part %d is %s in the copy and %s in the original' % (
                        w, n, i, v if isinstance(v, str) else tm.show(v), u if isinstance(u, str) else tm.show(u))
    except (valued.Stop, Unsupported, evalt.Unknown):
        return None
    finally:
        d.close()
    return None


def rings(rep, m):
    """copies of chunkers holding a ring buffer whose layout a copy may change: judged by how the copy goes on, for
    small windows and every fill state"""
    for alg, fn, args in (('gzip', 'gzip_i_clone', lambda w: [C(w), W('m', 1)]),):
        if '@' + fn not in m.fns:
            continue
        w_ = where(m, m.fns['@' + fn])
        for w in (1, 2, 3):
            nm = 'copy of the %s incremental chunker, window %d, in any fill state' % (alg, w)
            with rep.item(nm, w_, 100):
                resumed(rep, nm, alg, fn, args(w), w, w_)


def resumed(rep, nm, alg, fn, args, w, w_):
    c = Cfg(alg, args, periods=[], name='%s window %d' % (alg, w))
    mc = M.Machine(c, 'push')
    tr = M.Trace(mc, 2 * w + 1)
    n = 0
    for k, st in enumerate(tr.states):
        s1 = State(dict(st.objs))
        o = outobj(s1, 'copy')
        r = call(fn, [o, ptr('self')], s1, base=c.base, tag='#cl')
        if r.state is None:
            rep.violation(nm, 'copying never returns', w_)
            return
        x, y = logical(st.objs['self'], st), logical(r.state.objs['copy'], r.state)
        if x is None or y is None:
            rep.undecided(nm, 'layout after %d bytes' % k, w_)
            return
        for i, (u, v) in enumerate(zip(x, y)):
            if u is v:
                n += 1
                continue
            if isinstance(u, str) or isinstance(v, str) or u.w != v.w or u.op == 'ptr' or v.op == 'ptr' or evalt.apart([], u, v):
                rep.violation(nm, 'after %d bytes part %d is %s in the copy and %s in the original' % (
                    k, i, v if isinstance(v, str) else tm.show(v), u if isinstance(u, str) else tm.show(u)), w_)
            else:
                rep.undecided(nm, 'after %d bytes part %d is %s and %s' % (k, i, tm.show(v), tm.show(u)), w_)
            return
    rep.held(nm, '%d parts equal' % n, w_)


def logical(o, st):
    """fields of a chunker with one ring buffer (capacity, pointer, head, length), the ring as the sequence it holds"""
    cells = flat(o)
    ps = [off for off, (s, v) in cells.items() if not isarr(v) and v.op == 'ptr' and v.args[0].startswith('heap:')]
    if not ps:
        ps = [off for off, (s, v) in cells.items() if not isarr(v) and is_const(v) and cval(v) == 1 and off >= 8 and
              all(off + k in cells and is_const(cells[off + k][1]) and cval(cells[off + k][1]) == 0 for k in (-8, 8, 16))][:1]
    if len(ps) != 1:
        return None
    p = ps[0]
    q = [cells.get(p + k) for k in (-8, 8, 16)]
    if any(x is None or not is_const(x[1]) for x in q):
        return None
    cap, head, ln = (cval(x[1]) for x in q)
    out = [v for off, (s, v) in sorted(cells.items()) if off not in (p - 8, p, p + 8)]
    if ln:
        m = M.content(cells[p][1], st)
        if m is None or head >= max(cap, 1) or ln > cap:
            return None
        out += [ip.m_read(m, C((head + i) % cap), 1) for i in range(ln)]
    return out + ['end']


def hashes(rep, m):
    """zpaq's hash state is public on its own"""
    for fn, f in (('zpaq_h_clone', clone), ('zpaq_h_eq', equal)):
        if '@' + fn in m.fns:
            w = where(m, m.fns['@' + fn])
            nm = '%s of the zpaq hash state' % ('copy' if f is clone else 'comparison')
            with rep.item(nm, w, 60):
                f(rep, nm, None, 'h', fn, w)


def value(c, what):
    if what == 'h':
        st = State()
        o = outobj(st, 'h')
        r = call('zpaq_h_default', [o], st)
        cells = {}
        for off, (s, v) in flat(r.state.objs['h']).items():
            cells[off] = (s, mem('init', 'self+%d' % off) if isarr(v) else var('self+%d' % off, 8 * s))
        return Value({}, cells, [])
    return build(c, what)


def clone(rep, nm, c, what, fn, w):
    v = value(c, what)
    base = []           # whatever the parameters
    st = State(dict(v.objs))
    a = Obj('a', 'undef')
    a.cells = dict(v.cells)
    st.objs['a'] = a
    o = outobj(st, 'out')
    r = call(fn, [o, ptr('a')], st, base=base, tag='#cl')
    if r.state is None:
        rep.violation(nm, 'copying never returns', w)
        return
    fo = flat(r.state.objs['out'])
    n = 0
    for off, (s, x) in sorted(v.cells.items()):
        if not isarr(x) and x.op == 'undef':
            continue
        n += 1
        got = r.state.objs['out']
        y = fo[off][1] if off in fo and fo[off][0] == s else (got.zone(off, off + s)[2] if isarr(x) else got.load(off, s))
        if x is y:
            continue
        if isarr(x):
            rep.undecided(nm, 'array at offset %d: %s' % (off, tm.show(y)[:200]), w)
            return
        if x.op == 'ptr' and y.op == 'ptr':
            p, q = M.content(x, r.state), M.content(y, r.state)
            if p is not None and (p is q or samearr(p, q, v, base)):
                continue
            rep.undecided(nm, 'memory behind offset %d: %s instead of %s' % (off, tm.show(q)[:200] if q is not None else tm.show(y), tm.show(p)[:200] if p is not None else tm.show(x)), w)
            return
        if y.op == 'undef' or x.op == 'ptr' or y.op == 'ptr':
            rep.undecided(nm, 'field at offset %d: %s instead of %s' % (off, tm.show(y)[:200], tm.show(x)[:200]), w)
            return
        for path, p, q in dif(x, y, r.gate, base):
            e = evalt.apart(base + path, p, q) if p.op != 'undef' and q.op != 'undef' and p.w == q.w else None
            if e:
                rep.violation(nm, 'field at offset %d is %s in the copy and %s in the original' % (off, tm.show(q)[:200], tm.show(p)[:200]), w)
            else:
                rep.undecided(nm, 'field at offset %d: %s instead of %s' % (off, tm.show(q)[:200], tm.show(p)[:200]), w)
            return
    rep.held(nm, '%d fields equal' % n, w)
    rep.count(fields=n)


def samearr(p, q, v, base):
    """is q a copy of p over the length that is owned"""
    if q is None or q.op != 'mem':
        return False
    if q.args[0] == 'cp':
        prev, dst, src, soff, ln = q.args[1:]
        if is_const(dst) and cval(dst) == 0 and is_const(soff) and cval(soff) == 0 and src is p:
            return True
    return False


def equal(rep, nm, c, what, fn, w):
    v = value(c, what)
    st = pair(v)
    base = []           # whatever the parameters
    o = outobj(st, 'out')
    r = call(fn, [ptr('a'), ptr('b'), o], st, base=base, tag='#eq')
    if r.state is None:
        rep.violation(nm, 'comparing never returns', w)
        return
    res = tm.eq(r.state.objs['out'].load(0, 8), C(1))
    want = TRUE
    n = 0
    mine, theirs = State(dict(st.objs)), st
    for off, (s, x) in sorted(v.cells.items()):
        y = st.objs['b'].cells[off][1]
        if isarr(x):
            n += 1
            if is_const(x) if x.op == 'poly' else x is y:
                continue
            want = band(want, arreq(x, y, const(s, 64)))
        elif x.op == 'undef':
            continue
        elif x.op == 'ptr':
            n += 1
            if x is y:
                continue
            p, q = M.content(x, st), M.content(y, st)
            ln = owned(x, v, res)
            if ln is None and x.args[0] == 'table':
                ln = C(2048 if c.alg == 'fastcdc' else 1024)    # a borrowed table whose content is not looked at
            if p is None or q is None or ln is None:
                raise Unsupported('memory behind offset %d' % off)
            want = band(want, arreq(p, q, ln))
        else:
            n += 1
            want = band(want, tm.eq(x, y))
    U = mk('undef', 1, ())
    ds = th.diff(ite(r.gate, res, U), ite(r.gate, want, U), base)
    if not ds:
        rep.held(nm, 'equal exactly when all %d fields are' % n, w)
        rep.count(fields=n)
        return
    # contents compared as opaque atoms: valuate them as variables
    memo = {}

    def mp(t):
        if t.op == 'uf' and t.args[0] == 'bcmp':
            return var('content%d' % t.id, t.w, 0, 1)
        return None
    f = lambda z: tm.subst(z, mp, memo)
    for path, p, q in ds:
        p2, q2 = f(p), f(q)
        lits = [M.lit(f(tm.condv(k)), b) for k, b in list(base) + path]
        if evalt.apart(lits, p2, q2):
            rep.violation(nm, 'says %s where %s, but the fields make it %s' % (tm.show(p), ' and '.join(('' if b else 'not ') + tm.show(k)[:100] for k, b in path[-6:]), tm.show(q)), w)
            return
    rep.undecided(nm, '; '.join('%s instead of %s' % (tm.show(p), tm.show(q)) for _, p, q in ds[:2]), w)


def kinds(rep, m):
    """configurations with bounds of different kinds are never equal"""
    if '@zpaq_eq' not in m.fns:
        return
    w = where(m, m.fns['@zpaq_eq'])
    cs = configs('zpaq')
    for c in cs:
        nm = 'comparison of the zpaq configuration%s with other kinds of bounds' % c.name[4:]
        with rep.item(nm, w, 30):
            for d in cs:
                if c is d:
                    continue
                st = pair(build(c, 'cfg'), build(d, 'cfg'))
                o = outobj(st, 'out')
                r = call('zpaq_eq', [ptr('a'), ptr('b'), o], st, tag='#eq')
                if r.state is None:
                    rep.violation(nm, 'comparing never returns', w)
                    break
                res = band(r.gate, tm.eq(r.state.objs['out'].load(0, 8), C(1)))
                if res is not FALSE:
                    ls = next((ls for ls in paths(res) if not th.infeasible(ls)), None)
                    if ls is None:
                        continue
                    if any(True for _ in evalt.sample([], ls, 1, 500)):
                        rep.violation(nm, 'equal to %s where %s' % (d.name, ' and '.join(('' if b else 'not ') + tm.show(k)[:100] for k, b in ls)), w)
                    else:
                        rep.undecided(nm, 'equal to %s?' % d.name, w)
                    break
            else:
                rep.held(nm, 'never equal', w)


def arreq(p, q, ln):
    x = sorted([(p, C(0)), (q, C(0))], key=lambda t: (t[0].id, t[1].id))
    u = tm.ap('bcmp', lambda *z: tm.atomv(mk('uf', 32, ('bcmp',) + z)), x[0][0], x[0][1], x[1][0], x[1][1], ln)
    return tm.eq(u, const(0, 32))


SIZES = {'table': 1024}


def owned(x, v, res):
    """length of the memory behind a pointer: the length stored after it, or the table it refers to"""
    for off, (s, y) in v.cells.items():
        if y is x:
            nx = v.cells.get(off + 8)
            if x.args[0].startswith('heap:') and nx and not isarr(nx[1]) and nx[1].op == 'poly':
                return nx[1]
    for a in tm.atoms_of(res):
        if a.op == 'uf' and a.args[0] == 'bcmp' and any(isinstance(z, tm.T) and z.op == 'mem' and z.args[0] == 'init' and z.args[1] == x.args[0] for z in a.args):
            n = a.args[5]
            if is_const(n) and cval(n) in (1024, 2048):
                return n
    return None
