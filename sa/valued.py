"""Valuation of the extracted value graphs under fixed parameters and bytes.

Used only to decide whether an obligation that the static rules could not discharge really fails: the graph of every
call is built from the compiled code as always, with constants for the parameters, the table and the bytes, and the
protocol between caller and chunker is followed.  Nothing is ever reported as held because of it, and it is never
consulted for an algorithm whose obligations are all discharged."""
import random
import re
import time
from . import terms as tm, interp as ip, machine as M, feasible, evalt
from .interp import State, mem, Unsupported
from .machine import C
from .terms import TRUE, FALSE, is_const, cval

LIMIT = 200000
_n = [0]


class Stop(Exception):
    """no valuation"""


def glob(bs, w=1):
    _n[0] += 1
    nm = '=%d' % _n[0]
    ip.GDATA[nm] = [(i * w, w, ('int', x)) for i, x in enumerate(bs)]
    return nm


def release(nm):
    ip.GDATA.pop(nm, None)
    ip.GINDEX.pop(nm, None)


def fixed(c, env):
    """the configuration with its parameters fixed"""
    def f(x):
        if x.op != 'poly':
            return x
        r = tm.subst(x, lambda t: tm.const(env[t.args[0]], t.w) if t.op == 'var' and t.args[0] in env else None)
        if not is_const(r):
            raise Stop('parameter')
        return r
    r = M.Cfg(c.alg, [f(x) for x in c.args], ctor=c.ctor, name=c.name)
    w = 4 if c.alg.startswith('buz') else 8
    r.table = mem('glob', glob([feasible.table(env, 'table', i * w, 8 * w) for i in range(256)], w))
    if c.alg == 'zstd':
        r.patch = fewer_bits
    return r


def fewer_bits(o):
    """zstd splits every 2^20 bytes or less often: its mask of low hash bits is narrowed, so that the hash shows in the splits"""
    for off, (sz, v) in list(o.cells.items()):
        if sz == 8 and not isinstance(v, tuple) and v.op == 'poly' and is_const(v):
            x = cval(v)
            if x & (x + 1) == 0 and 15 < x.bit_length() < 60:
                o.cells[off] = (sz, C(31))


class Drive:
    """chunkers or search states of one fixed configuration"""

    def __init__(self, c, kind, env):
        self.kind, self.env, self.c = kind, env, c
        self.mc = M.Machine(fixed(c, env), kind)
        self.mc.bools = ()
        if self.mc.st0 is None:
            raise Stop('no start')
        self.start = State(dict(self.mc.st0.objs))
        self.bytes = 0
        self.names = []

    def close(self):
        for nm in self.names:
            release(nm)

    def call(self, st, bs):
        """(edge or None, discarded, state) or 'panic'"""
        nm = glob(bs)
        self.bytes += len(bs) + 2
        self.names.append(nm)       # a chunker may keep a copy of the bytes
        s = self.mc.step(st=State(dict(st.objs)), rexpr=C(0), data=mem('glob', nm), tag='#v', ln=C(len(bs)), limit=LIMIT)
        if s.dead:
            if s.res.panics and s.res.panics[0].kind != 'grow':
                p = s.res.panics[0]
                self.panic = p.where[0] if isinstance(p.where, tuple) else str(p.where)
                return 'panic'
            raise Stop('does not return')
        self.alloc = [num(e[3][1]) for e in s.res.events if e[0] == 'alloc']
        if s.gate is not TRUE or s.D is not TRUE and s.D is not FALSE:
            raise Stop('not determined')
        st2 = State({k: o for k, o in s.state.objs.items() if k not in ('data', 'out') and not k.startswith('alloca:')})
        return num(s.idx) if s.D is TRUE else None, num(s.discard) if self.kind == 'fce' else None, st2


def num(v):
    if not is_const(v):
        raise Stop('not a number')
    return cval(v)


class Run:
    """what a caller sees: absolute edges, and what went wrong with a single call"""

    def __init__(self):
        self.edges = []
        self.wrong = {}
        self.kept = 0
        self.panic = None
        self.seen = 0       # bytes fed
        self.stopped = True

    def bad(self, prop, text):
        self.wrong.setdefault(prop, text)


def push(d, bs, cuts, st=None):
    r = Run()
    st = st or d.start
    pos = last = 0
    for ln in cuts:
        piece = bs[pos:pos + ln]
        while True:
            x = d.call(st, piece)
            if x == 'panic':
                r.panic = pos
                r.bad('C02', 'feeding %d bytes after %d panics at %s' % (len(piece), pos, d.panic))
                r.seen = pos
                return r
            e, _, st = x
            if any(a > max(2 * window_of(d.c, d.env), 64) for a in d.alloc):
                r.bad('C12', 'a buffer grows to %d bytes after %d bytes' % (max(d.alloc), pos))
            if e is None:
                pos += len(piece)
                break
            if e > len(piece):
                r.bad('C09', 'index %d reported for a piece of %d bytes' % (e, len(piece)))
                return r
            pos += e
            r.edges.append(pos)
            if pos == last:
                r.bad('C09', 'an empty chunk is reported after %d bytes' % pos)
                return r
            last = pos
            if len(r.edges) > len(bs) + 5:
                return r
            piece = piece[e:]
            if not piece:
                break
        r.seen = pos
    r.stopped = False
    return r


def fce(d, bs, fills, window=None):
    r = Run()
    st = d.start
    base = fed = last = 0       # position of the buffer, bytes in it or before it, last edge
    for ln in fills:
        fed = min(len(bs), fed + ln)
        while True:
            buf = bs[base:fed]
            x = d.call(st, buf)
            if x == 'panic':
                r.panic = base
                r.bad('C02', 'searching a buffer of %d bytes after discarding %d panics at %s' % (len(buf), base, d.panic))
                return r
            e, k, st = x
            if e is not None and e > len(buf) or k > len(buf) or e is not None and k > e:
                r.bad('C09', 'edge %s and discard %d reported for a buffer of %d bytes' % (e, k, len(buf)))
                return r
            kept = (e if e is not None else len(buf)) - k
            r.kept = max(r.kept, kept)
            if window is not None and kept > window:
                r.bad('C12', 'after %d bytes %d examined bytes are to be kept' % (base + (e if e is not None else len(buf)), kept))
            at = base + e if e is not None else None
            base += k
            if at is None:
                break
            if at <= last:
                r.bad('C09', 'an edge at %d is reported after one at %d' % (at, last))
                return r
            r.edges.append(at)
            last = at
            if len(r.edges) > len(bs) + 5:
                return r
        r.seen = fed
        if fed >= len(bs):
            break
    r.stopped = False
    return r


def divide(n, lens, rnd, kind):
    """a division of n bytes"""
    k = rnd.randrange(6)
    out = []
    left = n
    one = rnd.choice(lens)
    while left:
        if k == 0:
            x = 1
        elif k == 1:
            x = rnd.randrange(1, 6)
        elif k == 2:
            x = one
        elif k == 3:
            x = rnd.choice(lens)
        elif k == 4:
            x = rnd.choice((0, 1, 1, 2, 3, rnd.choice(lens)))
        else:
            x = left
        x = min(x, left)
        if len(out) > 4 and not any(out[-4:]):
            x = max(x, 1)
        out.append(x)
        left -= x
        if rnd.random() < .03:
            out.append(0)
    return out


def source(rnd, ks):
    k = rnd.randrange(8)
    if k < 3:
        return feasible.bytesrc(rnd)
    if k == 3:
        a = rnd.sample(ks, min(len(ks), rnd.choice((2, 3)))) if rnd.random() < .5 else [0, 255]
        return lambda: rnd.choice(a)
    if k == 4:
        # runs
        st = [0, 0]

        def run():
            if st[1] == 0:
                st[0], st[1] = rnd.choice((rnd.choice(ks), rnd.randrange(256))), rnd.choice((1, 2, 5, 20, 80))
            st[1] -= 1
            return st[0]
        return run
    if k == 5:
        c = rnd.choice(ks)
        return lambda: c
    return lambda: rnd.randrange(256)


def bounds(alg, env, edges, seen, c, after):
    """first chunk that does not respect the configured bounds (C08), as text"""
    last = 0
    for e in edges + [None]:
        ln = (e if e is not None else seen) - last
        if alg == 'fastcdc':
            if e is not None and ln < env['min']:
                return 'a chunk of %d bytes with a minimum of %d' % (ln, env['min'])
            if ln > env['max']:
                return 'a chunk of %d bytes with a maximum of %d' % (ln, env['max'])
        elif alg == 'zpaq':
            lt, ht = cval(c.args[1]), cval(c.args[3])
            lo, hi = env.get('lo'), env.get('hi')
            under = [lambda x: x < lo, lambda x: x <= lo, lambda x: False][lt]
            over = [lambda x: x > hi, lambda x: x >= hi, lambda x: False][ht]
            if e is not None and under(ln) and not over(ln):
                return 'a chunk of %d bytes is under the minimum' % ln
            if ln > 0 and (over(ln - 1) and ln > 1 or e is None and over(ln)):
                return 'a chunk of %d bytes went on beyond the maximum' % ln
        elif alg == 'ram':
            if e is not None and ln < env['w']:
                return 'a chunk of %d bytes with a window of %d' % (ln, env['w'])
        elif alg.startswith('buz'):
            if ln > env['max'] + 1 or e is None and ln > env['max']:
                return 'a chunk of %d bytes with a maximum of %d' % (ln, env['max'])
        if e is not None:
            last = e
    return None


PROPS = ('C02', 'C03', 'C04', 'C05', 'C06', 'C08', 'C09', 'C10', 'C12')
BASE = (1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 31, 32, 33, 40, 63, 64, 65, 100)


def window_of(c, env):
    if c.alg == 'zstd':
        return 32
    return {'bup': 'w', 'gzip': 'w', 'buzt': 'k', 'buzb': 'k', 'buzs': 'k'}.get(c.alg) and env[{'bup': 'w', 'gzip': 'w'}.get(c.alg, 'k')] or 0


def first_diff(a, b):
    for x, y in zip(a, b):
        if x != y:
            return 'edges at %d and %d' % (x, y)
    if len(a) != len(b):
        x = (a if len(a) > len(b) else b)[min(len(a), len(b))]
        return 'an edge at %d only in one of them' % x
    return None


def common(a, b, seen):
    """edges both runs could have reported"""
    return [x for x in a if x < seen], [x for x in b if x < seen]


def SPARSE(x):
    return {'w': 2 * x, 'k': 2 * x, 'max': 9 * x, 'min': 3 * x, 'normal': 3 * x, 'mask': 0xfffff, 'lo': 2 * x, 'hi': 4 * x, 'avg': 24, 'l': 24,
            'bits': 20, 'm': 1 << 20}


def JUST(x):
    """sizes a little above x"""
    return {'w': x + 100, 'k': 64, 'max': x + 200, 'min': x + 100, 'normal': x + 100, 'mask': 0xfffff, 'lo': x + 100, 'hi': x + 150, 'avg': 24, 'l': 24,
            'bits': 20, 'm': 1 << 20}


def witness(prop, c, kinds, seconds=30, lens=(), hints=(), consts=(), seed=1):
    """text of a valuated history that breaks the property, or None"""
    rnd = random.Random(seed)
    vs = evalt.vars_of([a for a in c.args if a.op == 'poly'])
    ks = sorted({0, 1, 2, 127, 128, 254, 255} | {k & 255 for k in consts})
    lens = sorted(set(BASE) | {l for l in lens if 0 < l <= 70000})
    extra = [l for l in lens if l not in BASE]
    hints = list(hints)
    end = time.time() + seconds
    for x, whole in [(x, t) for t in (2, 0, 1, 3) for x in extra if 1000 < x]:
        # first with nothing to split at: one long piece, then short ones
        if time.time() > end - seconds / 3:
            break
        drives = {}
        env = feasible.config_env(c.base, vs, rnd, (SPARSE if whole < 2 else JUST)(x))
        try:
            w = env and attempt(prop, c, kinds, env, lens, extra, ks, rnd, 1, drives, force=(x, whole & 1))
            if w:
                return 'with %s: %s' % (feasible.conf(env), w)
        except (Stop, Unsupported, evalt.Unknown):
            continue
        finally:
            for d in drives.values():
                d.close()
    for x in extra:
        if x > 100:
            hints += [SPARSE(x),
                      {'w': 8, 'k': 8, 'm': 1 << 20, 'bits': 20, 'l': 24, 'min': 3 * x, 'normal': 3 * x, 'max': 5 * x, 'mask': 0xfffff, 'avg': 24}] * 2
    tries = 0
    while time.time() < end and tries < 5000:
        tries += 1
        env = feasible.config_env(c.base, vs, rnd, rnd.choice(hints) if hints and rnd.random() < .5 else None)
        if env is None:
            return None
        drives = {}
        try:
            for k in range(5):
                w = attempt(prop, c, kinds, env, lens, extra, ks, rnd, tries, drives)
                if w:
                    return 'with %s: %s' % (feasible.conf(env), w)
                if time.time() > end:
                    break
        except (Stop, Unsupported, evalt.Unknown):
            continue
        finally:
            for d in drives.values():
                d.close()
    return None


def attempt(prop, c, kinds, env, lens, extra, ks, rnd, tries, drives, force=None):
    src = source(rnd, ks)
    n = rnd.choice((60, 60, 60, 200, 200, 600) + ((20000,) if c.alg == 'bup' and tries % 4 == 0 else ()))
    if c.alg == 'bup' and prop == 'C06' and rnd.random() < .8:
        n = 30000
    if extra and rnd.random() < .5:
        x = rnd.choice(extra)
        use = [x, x, rnd.choice(lens)]
        n = max(n, min(3 * x + 600, 80000))
    else:
        use = [l for l in lens if l <= 100]
    bs = [src() for _ in range(n)]
    if rnd.random() < .3:
        k = rnd.randrange(n)
        bs[k:] = [rnd.randrange(256) for _ in range(n - k)]
    cuts0 = None
    if rnd.random() < .35:
        # every piece of its own kind
        cuts0 = divide(n, use, rnd, None)
        bs = []
        for x in cuts0:
            src = source(rnd, ks) if rnd.random() < .5 else lambda k=rnd.choice(ks): k
            piece = [src() for _ in range(x)]
            # a first or last byte of its own
            if piece and rnd.random() < .4:
                piece[-1] = rnd.choice(ks + [rnd.randrange(256)])
            if piece and rnd.random() < .2:
                piece[0] = rnd.choice(ks + [rnd.randrange(256)])
            bs += piece
    if force:
        x, whole = force
        n = x + 300
        bs = [0] * n if not whole else [rnd.randrange(256) for _ in range(n)]
        cuts0 = [x] + [60] * 5
    out = []
    for kind in ('push', 'fce'):
        if prop != 'C05' and kind not in kinds:
            continue
        if kind not in drives:
            drives[kind] = Drive(c, kind, env)
        d = drives[kind]
        win = window_of(c, env)
        run = (lambda cuts: push(d, bs, cuts)) if kind == 'push' else (lambda cuts: fce(d, bs, cuts, win))
        cuts = cuts0 or divide(n, use, rnd, kind)
        r = run(cuts)
        what = 'feeding pieces' if kind == 'push' else 'refilling by'
        how = '%s of %s' % (what, short(cuts))
        if prop in r.wrong:
            return '%s, %s' % (how, r.wrong[prop])
        if prop in ('C02', 'C09', 'C12'):
            continue
        if prop == 'C03' and kind == 'push' or prop == 'C04' and kind == 'fce':
            for c2 in ([n], [1] * n) if n <= 700 else ([n],) if not force else ([97] * (n // 97) + [n % 97],):
                q = run(c2)
                if q.stopped:
                    continue
                if r.stopped:
                    t = list(r.wrong.values())[0] if r.wrong else 'it does not end'
                else:
                    t = first_diff(*common(r.edges, q.edges, min(r.seen, q.seen)))
                if t:
                    return '%s: %s, against %s of %s' % (how, t, what, short(c2))
        if r.stopped:
            continue
        if prop == 'C08':
            t = bounds(c.alg, env, r.edges, r.seen, c, None)
            if t:
                return '%s: %s' % (how, t)
        if prop == 'C06' and c.alg != 'zstd' and r.edges:
            for e in rnd.sample(r.edges, min(6 if c.alg != 'bup' else 2, len(r.edges))):
                rest = bs[e:e + (150 if c.alg != 'bup' else 15000)]
                q = (push if kind == 'push' else fce)(d, rest, [len(rest)])
                if not q.stopped:
                    t = first_diff(*common([x - e for x in r.edges if x > e], q.edges, min(r.seen - e, q.seen)))
                    if t:
                        return '%s: after the split at %d a new chunker goes on differently, %s' % (how, e, t)
        if prop == 'C10' and c.alg != 'zstd':
            from . import spec
            s = feasible.Side(spec.spec(c, kind), env)
            q = []
            k = 0
            while k < n:
                x = s.step(bs[k])
                if x == 'panic':
                    raise Stop('reference')
                if x[0] and not x[1]:
                    q.append(k)
                    if len(q) > 2 * n:
                        break
                    continue
                k += 1
                if x[0]:
                    q.append(k)
            t = first_diff(*common(r.edges, q, r.seen))
            if t:
                return '%s: the published recurrence has other edges, %s' % (how, t)
        out.append((how, r))
    if prop == 'C05' and len(out) == 2 and c.alg != 'fastcdc':
        (h1, a), (h2, b) = out
        t = first_diff(*common(a.edges, b.edges, min(a.seen, b.seen)))
        if t:
            return '%s by push and %s by find_chunk_edge: %s' % (h1, h2, t)
    return None


# ---------------------------------------------------------------- which constants do the calls test

def harvest(alg, kind):
    """(lengths, bytes): constants that 64-bit values of the call are compared with, shifted or masked by, and constants bytes are compared with"""
    from .spec0 import module
    m, g = module()
    lens, bs = {}, set()
    todo, seen = ['@%s_%s' % (alg, kind)], set()
    while todo:
        nm = todo.pop()
        f = m.fns.get(nm)
        if f is None or nm in seen:
            continue
        seen.add(nm)
        for b, ins in f.blocks.items():
            for i in ins:
                if i.op in ('call', 'invoke'):
                    called(i, todo, lens, m, f)
                else:
                    compared(i, lens, bs, m, f)
    return lens, bs


def called(i, todo, lens, m, f):
    nm = i.a[1]
    nm = nm[1] if isinstance(nm, tuple) else nm
    if not isinstance(nm, str):
        return
    if re.search(r'umin|umax|smin|smax|usub\.sat|uadd\.sat', nm):
        for x in i.a[2]:
            v = x[1] if isinstance(x, tuple) and len(x) == 2 else x
            if isinstance(v, tuple) and len(v) == 3 and v[0] == 'int' and v[2] == 64 and 1 < v[1] <= 70000:
                lens.setdefault(v[1], m.where(i.dbg) if i.dbg is not None else f.name)
    elif 'panic' not in nm and 'alloc' not in nm:
        todo.append(nm if nm.startswith('@') else '@' + nm)


def compared(i, lens, bs, m, f):
    for x in i.a:
        if not (isinstance(x, tuple) and len(x) == 3 and x[0] == 'int'):
            continue
        v, w = x[1], x[2]
        if i.op == 'icmp' and w == 8:
            bs.add(v & 255)
        if w != 64:
            continue
        k = None
        if i.op in ('icmp', 'udiv', 'urem') and 1 < v <= 70000:
            k = v
        elif i.op in ('lshr', 'shl', 'ashr') and 1 <= v <= 16:
            k = 1 << v
        elif i.op == 'and':
            u = v if v >= 0 else ~v
            if 0 < u <= 70000 and u & (u + 1) == 0:
                k = u + 1
            elif v < 0 and 0 < -v <= 70000 and -v & (-v - 1) == 0:
                k = -v
        if k:
            lens.setdefault(k, m.where(i.dbg) if i.dbg is not None else f.name)
    if i.op == 'trunc' and any(x in (8, 16) for x in widths(i)) and any(x == 64 for x in widths(i)):
        lens.setdefault(1 << min(widths(i)), m.where(i.dbg) if i.dbg is not None else f.name)


def widths(i):
    return [x[1] for x in i.a if isinstance(x, tuple) and len(x) == 2 and x[0] == 'i' and isinstance(x[1], int)]


def near(ks):
    return sorted({x for k in ks for x in (k - 1, k, k + 1, 2 * k, 2 * k + 1) if 0 < x <= 70000})


# ---------------------------------------------------------------- undecided obligations of a check

def named(nm):
    """(configuration, kinds) an obligation is about"""
    from . import algo
    best = None
    for a in M.ALGS:
        for c in algo.configs(a):
            t = M.TITLE.get(c.alg, c.alg) + c.name[len(c.alg):]
            if re.search(r'(^|[ :/])' + re.escape(t) + r'($|[ :/\[(_,])', nm) and (best is None or len(t) > len(best[0])):
                best = (t, c)
    if best is None:
        return None
    rest = nm.replace('push = find_chunk_edge', '')
    p, f = 'push' in rest, 'find_chunk_edge' in rest or '_fce' in rest
    return best[1], ('push',) if p and not f else ('fce',) if f and not p else ('push', 'fce')


def settle(rep, seconds):
    """turn undecided obligations that really fail into violations"""
    if rep.pid not in PROPS:
        return
    groups = {}
    for o in rep.obls:
        if o.status == 'undecided':
            k = named(o.name)
            if k:
                groups.setdefault((k[0].name, k[1]), (k, []))[1].append(o)
    if not groups:
        return
    end = time.time() + seconds
    tm.budget(seconds + 60)
    left = len(groups)
    for (c, kinds), os_ in groups.values():
        s = max(4, (end - time.time()) / left)
        left -= 1
        if end - time.time() < 3:
            break
        lens, bs = set(), set()
        for k in kinds if rep.pid != 'C05' else ('push', 'fce'):
            l, b = harvest(c.alg, k)
            lens |= set(near(l))
            bs |= b
        try:
            w = witness(rep.pid, c, kinds, min(s, 60 if rep.tier == 'quick' else 200), lens, (), bs)
        except (Unsupported, tm.TooLong, MemoryError, RecursionError):
            w = None
        rep.count(valuated_confirmations=1)
        if w:
            o = os_[0]
            o.status = 'violation' if o.name.replace(' ', '_') not in rep.known else 'known'
            o.detail = '%s; confirmed %s' % (o.detail[:1500], w)
            o.key = o.name.replace(' ', '_')


def short(cuts):
    if len(cuts) > 8:
        if len(set(cuts)) == 1:
            return '%d bytes each' % cuts[0]
        return '%s, ... bytes' % ', '.join(map(str, cuts[:8]))
    return '%s bytes' % ', '.join(map(str, cuts))
