"""Is a failed obligation real?  The analyser reports a violation only when the abstract counterexample is
feasible in the extracted transition graphs: the graphs of the two sides are valuated from their common initial
state (or from a related pair of states when the relation between the two sides is complete) and must be told apart
by a split they report.  This never decides that a property holds; it only keeps spurious counterexamples of the
proof rules from being reported."""
import itertools
import random
import time
from . import terms as tm, evalt, theory as th, machine as M
from .evalt import Val, Unknown
from .terms import is_const, cval

BIGP = (1 << 62) - 1


class Side:
    """one transition graph under valuation"""
    watch = ()
    per = None

    def __init__(self, model, env):
        self.m, self.env = model, env
        v = Val(env, self.rd0)
        self.hist = []
        self.n = self.N = 0
        self.acc = {}
        self.arr = {}
        p = []
        i = 1
        while 'p%d' % i in env:
            p.append(env['p%d' % i])
            i += 1
        self.hist = list(p)
        self.ring = {}
        for nm, (P, g, init) in (model.rings or {}).items():
            self.ring[nm] = self.content(init, v)
        for k, (w, init, var) in model.accs.items():
            self.acc[tm.single(var).args[0]] = v(init)
        for k, (init, post) in model.arrs.items():
            self.arr[k] = self.content(init, v)

    def content(self, mem, v):
        return self.upd(mem, None, v)

    def rd0(self, name, off, w):
        return table(self.env, name, off, w)

    def rd(self, name, off, w):
        if name == 'lag':
            if off > len(self.hist) and off > 0 and self.per:
                return self.per[-off % len(self.per)]
            if off <= 0 or off > len(self.hist):
                return 0        # only under a condition that does not hold
            return self.hist[-off]
        if name in self.arr:
            r = 0
            for i in range(w // 8):
                r |= self.byte(self.arr[name], off + i) << (8 * i)
            return r
        if name.startswith('old:'):
            k = name[4:]
            if k not in self.ring:
                raise Unknown(name)
            return self.byte(self.ring[k], off)
        return table(self.env, name, off, w)

    def step(self, b):
        e = dict(self.env)
        e.update(self.acc)
        e['n'], e['N'], e['byte'] = self.n, self.N, b
        for P, g, nm in self.m_rings():
            e[nm] = (self.n if g == 'n' else self.N) % P
        v = Val(e, self.rd)
        if self.watch:
            self.seen = [v(x) for x in self.watch]
        if not v(self.m.gate):
            return 'panic'
        D = v(self.m.D)
        after = v(self.m.after) if D else 1
        acc = {tm.single(self.m.accs[k][2]).args[0]: v(self.m.post[k]) for k in self.m.accs}
        arr = {}
        for k, (init, post) in self.m.arrs.items():
            arr[k] = self.upd(post, k, v)
        self.acc, self.arr = acc, arr
        for nm, (P, g, init) in (self.m.rings or {}).items():
            if not D or after:
                kk, f, d = self.ring[nm]
                if D and nm in self.m.fresh:
                    self.ring[nm] = (kk, f, {})
                else:
                    d[(self.n if g == 'n' else self.N) % v(P)] = b
        self.hist.append(b)
        if len(self.hist) > 70000:
            del self.hist[:30000]
        self.n = 0 if D else self.n + 1
        if D and not after:
            self.n = 0      # the byte is fed again by the caller
            self.hist.pop()
            return (1, 0)
        self.N += 1
        return (D, after)

    def m_rings(self):
        r = getattr(self.m, 'ghosts', None)
        return r or ()

    def upd(self, post, k, v):
        """content of an array value: (tag, what lies outside of the written bytes, written bytes)"""
        while post.op == 'ite':
            post = post.args[1] if v(post.args[0]) else post.args[2]
        if post.op != 'mem':
            raise Unknown('array')
        a = post.args
        if a[0] == 'init':
            if k is None or a[1] not in self.arr:
                return ('tab', a[1], {})
            return self.arr[a[1]]
        if a[0] == 'undef':
            return ('fill', 0, {})      # never read before it is written
        if a[0] == 'fill':
            return ('fill', v(a[1]), {})
        if a[0] == 'st':
            kk, f, d = self.upd(a[1], k, v)
            d = dict(d)
            o, val = v(a[2]), v(a[4])
            for i in range(a[3]):
                d[o + i] = val >> (8 * i) & 255
            return (kk, f, d)
        if a[0] == 'cp':
            kk, f, d = self.upd(a[1], k, v)
            src = self.upd(a[3], k, v)
            do, so, ln = v(a[2]), v(a[4]), v(a[5])
            if ln > 5000:
                raise Unknown('copy')
            d = dict(d)
            for i in range(ln):
                d[do + i] = self.byte(src, so + i)
            return (kk, f, d)
        raise Unknown('array update')

    def byte(self, arr, off):
        kk, f, d = arr
        if off in d:
            return d[off]
        if kk == 'fill':
            return f
        w = 32 if f == 'table' and self.m.mc and self.m.mc.alg.startswith('buz') else 8
        if w == 8:
            return table(self.env, f, off, 8)
        return table(self.env, f, off - off % 4, 32) >> (8 * (off % 4)) & 255


_tabs = {}


def table(env, name, off, w):
    key = (env.get('#seed', 0), name, off, w)
    if key not in _tabs:
        _tabs[key] = random.Random('%s/%s/%d' % (env.get('#seed', 0), name, off)).getrandbits(w)
    return _tabs[key]


from .evalt import PREF   # noqa
_OLD = {'avg': [10, 10, 10, 11], 'bits': [0, 1, 2, 3, 4, 5, 8], 'l': [1, 2, 3, 4, 5], 'mask': [0, 1, 3, 5, 7, 15, 0x11], 'm': [1, 2, 3, 5, 16, 64, 256],
        't': [1 << 20], 'k': [1, 2, 3, 4, 5, 31, 32, 33, 40], 'w': [1, 2, 3, 4, 5, 8, 16, 64]}


def config_env(base, vs, rnd, hint=None):
    for _ in range(200):
        env = {'#seed': rnd.randrange(1 << 30)}
        for nm, t in vs.items():
            lo, hi = t.args[1], t.args[2] if t.args[2] is not None else tm.M(t.w)
            if hint and nm in hint and rnd.random() < .7:
                env[nm] = hint[nm]
            elif nm in PREF:
                env[nm] = min(hi, max(lo, rnd.choice(PREF[nm])))
            elif t.w == 8:
                env[nm] = rnd.randint(lo, hi)
            else:
                env[nm] = min(hi, lo + rnd.choice([0, 1, 2, 3, 4, 5, 7, 12, 20, 50, 120]))
        try:
            v = Val(env, lambda n, o, w: table(env, n, o, w))
            if all(bool(v(c)) == p for c, p in base):
                return env
        except Unknown:
            pass
    return None


def cfgvars(*models):
    ts = []
    for m in models:
        ts += [a for a in m.cfgargs]
        ts += [i for w, i, v in m.accs.values()]
    out = {k: t for k, t in evalt.vars_of(ts).items()}
    return out


def cfgbase(m):
    return m.cfgbase


def bytesrc(rnd, k=None):
    k = rnd.randrange(7) if k is None else k
    if k == 0:
        a = [rnd.randrange(256) for _ in range(rnd.choice((2, 3, 4)))]
        return lambda: rnd.choice(a)
    if k == 1:
        st = [0]

        def up():
            st[0] = (st[0] + rnd.choice((0, 1, 1, 1, 2))) & 255 if rnd.random() < .93 else rnd.randrange(256)
            return st[0]
        return up
    if k == 2:
        c = rnd.choice((0, 255, rnd.randrange(256)))
        return lambda: c
    if k == 6:
        # long runs of growing bytes
        st = [rnd.choice((0, 0, rnd.randrange(256)))]

        def ramp():
            st[0] = (st[0] + 1) & 255 if rnd.random() < .996 else rnd.randrange(256)
            return st[0]
        return ramp
    return lambda: rnd.randrange(256)


START = time.time()


def lockstep(A, B, seed=1, budget=60000, hints=(), compare=lambda x, y: x == y, watch=None):
    """a valuated history on which the two graphs report different splits, or None"""
    rnd = random.Random(seed)
    vs = cfgvars(A, B)
    steps = 0
    tries = 0
    # first the configurations the failed obligations name
    named = []
    for h in hints:
        h = {k: z for k, z in h.items() if k in vs}
        if h and h not in named:
            named.append(h)
    plan = [(h, k) for h in named[:12] for k in (6, 6, 6, 1, 5)]
    while steps < budget and tries < 400:
        tries += 1
        if plan:
            h, kind = plan.pop(0)
            env = config_env(A.cfgbase, vs, rnd, h)
            if env is None:
                continue
        else:
            h, kind = None, None
            env = config_env(A.cfgbase, vs, rnd, rnd.choice(hints) if hints and rnd.random() < .5 else None)
        if env is None:
            break
        src = bytesrc(rnd, kind)
        try:
            a, b = Side(A, env), Side(B, env)
            T = rnd.choice((60, 60, 60, 300, 300, 3000)) if kind is None else 400
            for t in range(T):
                x = src()
                steps += 1
                ra, rb = a.step(x), b.step(x)
                if ra == 'panic' or rb == 'panic':
                    if ra != rb:
                        return env, t, ra, rb
                    break
                if not compare(ra, rb):
                    return env, t, ra, rb
                if watch and watch(a, b):
                    return env, t, ra, rb
                # a split before the byte: the caller feeds it again
                k = 0
                while (ra[0] and not ra[1] or rb[0] and not rb[1]) and k < 3:
                    k += 1
                    fa, fb = ra[0] and not ra[1], rb[0] and not rb[1]
                    if fa != fb:
                        break
                    ra, rb = a.step(x), b.step(x)
                    if ra == 'panic' or rb == 'panic' or not compare(ra, rb):
                        return env, t, ra, rb
        except Unknown:
            continue
    return None


def scan(A, bads, seed=1, budget=60000, hints=()):
    """a valuated history on which one of the boolean values bads is true, or None: (env, bytes, which)"""
    rnd = random.Random(seed)
    vs = cfgvars(A)
    steps = tries = 0
    while steps < budget and tries < 400:
        tries += 1
        env = config_env(A.cfgbase, vs, rnd, rnd.choice(hints) if hints and rnd.random() < .5 else None)
        if env is None:
            break
        src = bytesrc(rnd)
        try:
            a = Side(A, env)
            a.watch = bads
            x = src()
            for t in range(rnd.choice((60, 60, 60, 300, 300, 3000))):
                steps += 1
                a.seen = []
                try:
                    r = a.step(x)
                except Unknown:
                    r = 'panic'
                for k, z in enumerate(a.seen):
                    if z:
                        return env, t, k
                if r == 'panic':
                    break
                if not (r[0] and not r[1]):
                    x = src()
        except Unknown:
            continue
    return None


def conf(env):
    return ', '.join('%s=%s' % (k, v) for k, v in sorted(env.items()) if not k.startswith('#') and not (k[0] == 'p' and k[1:].isdigit())
                     and not k.startswith('spec.') and k not in ('byte',))


def related(A, B, mms, seed=1, tries=30, ahead=12000, watch=None):
    """bring both graphs, from their initial states, to the state a failed obligation asks for and run ahead until
    they report different splits: (env, bytes, result, result) or None.  Only a shifting hash can be aimed."""
    rnd = random.Random(seed)
    end = time.time() + 40
    sh = shifting(B)
    vs = cfgvars(A, B)
    for mm in mms:
        names = set(evalt.vars_of([c for c, q in mm.path] + [mm.got, mm.want]))
        n = 0
        for nn in ((None,) if 'n' not in names else (33, 65, 1025, 4100, None)):
            for env, tab, v in itertools.islice(evalt.sample([mm.got, mm.want], mm.path, rnd.randrange(1 << 30), 1500, {'n': nn} if nn else None), 8):
                n += 1
                if n > tries or time.time() > end:
                    break
                try:
                    if v(mm.got) == v(mm.want):
                        continue
                    full = config_env(list(A.cfgbase) + list(B.cfgbase), vs, rnd, {q: env[q] for q in env if q in vs})
                    if full is None:
                        continue
                    full.update({q: z for q, z in env.items() if q in vs})
                    vv = Val(full, lambda nm, o, ww: table(full, nm, o, ww))
                    if not all(bool(vv(c)) == q for c, q in list(A.cfgbase) + list(B.cfgbase)):
                        continue
                    for (nm, off, ww), z in tab.items():
                        if nm != 'lag':
                            _tabs[(full['#seed'], nm, off, ww)] = z
                    for k, x, a in sh:
                        w, init, hv = B.accs[k]
                        H = tm.single(hv)
                        if H.args[0] not in names or H.args[0] not in env:
                            continue
                        r = together(A, B, full, env, backwards(x, H, a, w, env[H.args[0]], full, rnd), 'n' in names, ahead, watch, rnd)
                        if r:
                            return r
                except Unknown:
                    continue
    return None


def together(A, B, full, env, tail, at, ahead, watch, rnd):
    if tail is None:
        return None
    n = env['n'] if at and 'n' in env else len(tail) + rnd.choice((0, 1, 5, 40, 200))
    if n > 20000 or n < len(tail):
        return None
    a, b = Side(A, full), Side(B, full)
    seq = [rnd.randrange(256) for _ in range(n - len(tail))] + tail + [env.get('byte', rnd.randrange(256))]
    t = 0
    while t < len(seq) + ahead:
        x = seq[t] if t < len(seq) else rnd.randrange(256)
        ra, rb = a.step(x), b.step(x)
        if ra == 'panic' or rb == 'panic':
            return (full, t, ra, rb) if ra != rb else None
        if ra != rb or watch and watch(a, b):
            return full, t, ra, rb
        if ra[0] and t < len(seq) - 1 and at:
            return None     # a split before the state asked for
        t += 1
    return None


def res(r):
    return r if isinstance(r, str) else ('no split' if not r[0] else 'split %s the byte' % ('after' if r[1] else 'before'))


def text(w):
    env, t, ra, rb = w
    return 'with %s the graphs differ after %d bytes: %s against %s' % (conf(env), t + 1, res(ra), res(rb))


def judge(A, B, best, budget=60000, compare=None, watch=None):
    """('held'|'violation'|'undecided', text) for a match attempt"""
    score, mm, rel, accmap, arrmap, base = best
    if score == 0:
        return 'held', ''
    cmp_ = compare or (lambda x, y: x == y)
    complete = all(kb is not None for kb, t in rel.values())
    hints = []
    for x in mm[:6]:
        for nn in (None, 70, 200):
            for k, (env, tab, v) in enumerate(evalt.sample([x.got, x.want], x.path, 5, 400, {'n': nn} if nn else None)):
                if k > 4:
                    break
                hints.append({a: b for a, b in env.items() if not a.startswith('spec.') and b < 5000})
    w = lockstep(A, B, 1, budget, hints, cmp_, watch)
    if w:
        return 'violation', text(w)
    if time.time() > START + 420:
        return 'undecided', ''
    if complete:
        w = related(A, B, [x for x in mm if x.what.startswith(('the state', 'the split', 'where'))][:8], watch=watch)
        if w:
            return 'violation', text(w)
    fs = [x.path for x in mm if x.what.startswith(('the split', 'where', 'the state'))]
    w = far(A, [], fs, None, B)
    if w:
        return 'violation', text(w)
    return 'undecided', ''


def brief(x, env):
    c = ', '.join('%s=%s' % (k, v) for k, v in sorted(env.items())[:10])
    return 'code %s, expected %s (for example %s)' % (tm.show(x.got)[:200], tm.show(x.want)[:200], c)


# ---------------------------------------------------------------- reaching a given value of a shifting hash

def shifting(A):
    """[(accumulator, update term, coefficient)]: updates acc' = a*acc + f(byte) with even a"""
    out = []
    for k, (w, init, hv) in A.accs.items():
        H = tm.single(hv)
        lv = []
        M.leaves_of(A.post[k], [], lv)
        seen = set()
        for ls, x in lv:
            if x.op != 'poly' or x.id in seen:
                continue
            seen.add(x.id)
            a = 0
            ok = True
            for mono, c in x.args[1]:
                if H in mono:
                    ok = ok and len(mono) == 1
                    a = c
                elif any(H in tm.atoms_of(tm.atomv(f)) for f in mono if f.op != 'var'):
                    ok = False
            if ok and a and a % 2 == 0:
                out.append((k, x, a))
    return out


def backwards(x, H, a, w, target, env, rnd):
    """bytes that bring the accumulator to the target whatever it was before, or None"""
    def f(b):
        e = dict(env)
        e['byte'], e[H.args[0]] = b, 0
        return Val(e, lambda n, o, ww: table(env, n, o, ww))(x)
    try:
        F = [f(b) for b in range(256)]
    except Unknown:
        return None
    v = (a & -a).bit_length() - 1
    inv = pow(a >> v, -1, 1 << w)

    def before(t, m, b):
        return ((t - F[b]) % (1 << m) >> v) * inv % (1 << max(m - v, 0))

    def fits(t, m):
        return [b for b in range(256) if (t - F[b]) % (1 << min(v, m)) == 0]
    out = []
    m, t = w, target
    while m > 0:
        c = fits(t, m)
        rnd.shuffle(c)
        # look ahead one byte: the value before must be one the hash can have
        c = [b for b in c[:64] if m <= v or fits(before(t, m, b), m - v)][:1]
        if not c:
            return None
        out.append(c[0])
        t = before(t, m, c[0])
        m -= v
    return out[::-1]


def aimed(A, base, paths_, bads, seed=1, tries=400):
    """a valuated history that brings the hash to the value a failing path asks for: (env, bytes, which) or None"""
    sh = shifting(A)
    if not sh:
        return None
    rnd = random.Random(seed)
    vs = cfgvars(A)
    n_tries = 0
    for p in paths_[:6]:
        lits = list(base) + list(p)
        names = set(evalt.vars_of([c for c, q in lits]))
        for k, x, a in sh:
            w, init, hv = A.accs[k]
            H = tm.single(hv)
            if H.args[0] not in names:
                continue
            got = 0
            def cands():
                for m in ((None,) if 'n' not in names else (33, 64, 65, 100, 1025, 4100, None)):
                    for z in itertools.islice(evalt.sample([], lits, rnd.randrange(1 << 30), 2000, {'n': m} if m else None), 12):
                        yield z
            for env, tab, v in cands():
                n_tries += 1
                if n_tries > tries or got > 40:
                    break
                if 'n' in names and (env['n'] < w // 2 or env['n'] > 20000):
                    continue
                got += 1
                full = config_env(A.cfgbase, vs, rnd, {q: env[q] for q in env if q in vs})
                if full is None:
                    continue
                full.update({q: z for q, z in env.items() if q in vs})
                try:
                    vv = Val(full, lambda n, o, ww: table(full, n, o, ww))
                    if not all(bool(vv(c)) == q for c, q in A.cfgbase):
                        continue
                except Unknown:
                    continue
                for (name, off, ww), z in tab.items():
                    if name != 'lag':
                        _tabs[(full['#seed'], name, off, ww)] = z
                r = steer(A, full, env, x, H, a, w, names, bads, rnd)
                if r:
                    return r
    return None


def steer(A, full, env, x, H, a, w, names, bads, rnd):
    for t in range(12):
        bs = backwards(x, H, a, w, env[H.args[0]], full, rnd)
        if bs is None:
            return None
        n = env['n'] if 'n' in names else len(bs) + rnd.choice((0, 1, 5, 40, 200))
        if n > 20000 or n < len(bs):
            return None
        try:
            s = Side(A, full)
            s.watch = bads
            seq = [rnd.randrange(256) for _ in range(n - len(bs))] + bs + [env.get('byte', rnd.randrange(256))]
            for j, b in enumerate(seq):
                s.seen = []
                try:
                    r = s.step(b)
                except Unknown:
                    r = 'panic'
                for i, z in enumerate(s.seen):
                    if z:
                        return full, j, i
                if r == 'panic' or r[0]:
                    break
        except Unknown:
            continue
    return None


# ---------------------------------------------------------------- long histories without a split

def periodic(rnd):
    a, b = rnd.randrange(256), rnd.randrange(256)
    return [((), [0]), ((255,), [0]), ((), [255]), ((), [a]), ((), [0, 0, 255, 255]), ((), [a, a, b, b])]


class Jump:
    """a graph on a periodic input that never splits: the state after very many bytes.  Cells that repeat stay, cells
    that grow by the same amount in every period are continued; the continuation is checked in between."""

    def __init__(self, model, full, seq, pre=(), warm=400):
        self.m, self.full, self.seq, self.p = model, full, seq, len(seq)
        s = Side(model, full)
        for x in pre:
            r = s.step(x)
            if r == 'panic' or r[0]:
                self.ok = False
                return
        snaps = []
        self.ok = False
        warm += -warm % self.p
        for t in range(warm):
            r = s.step(seq[t % self.p])
            if r == 'panic' or r[0]:
                return
            if t >= warm - 3 * self.p - 1:
                snaps.append((dict(s.acc), {k: self.norm(v) for k, v in s.arr.items()}))
        self.s = s
        self.n0 = warm + len(pre)
        p = self.p
        last = snaps[-1]
        if any(snaps[-1][1] != snaps[-1 - p][1] for _ in (0,)):
            return
        self.d = {}
        for k in last[0]:
            M_ = (1 << self.width(k)) - 1
            ds = {(snaps[-1 - i][0][k] - snaps[-1 - i - p][0][k]) & M_ for i in range(p + 1)}
            if len(ds) != 1:
                return
            self.d[k] = ds.pop()
        self.ok = True

    def width(self, name):
        for k, (w, init, var) in self.m.accs.items():
            if tm.single(var).args[0] == name:
                return w

    def norm(self, v):
        return v[0], v[1], dict(v[2])

    def at(self, n):
        """the state after n bytes, or None when there is a split before"""
        rest = (n - self.n0) % self.p
        n -= rest
        if n < self.n0:
            return None
        k = (n - self.n0) // self.p
        s = Side(self.m, self.full)
        s.n = s.N = n
        s.acc = {x: (z + self.d[x] * k) & ((1 << self.width(x)) - 1) for x, z in self.s.acc.items()}
        s.arr = {x: self.norm(v) for x, v in self.s.arr.items()}
        s.hist = (self.seq * (8192 // self.p))
        s.per = self.seq
        v = Val(self.full, s.rd0)
        for nm, (P, g, init) in (self.m.rings or {}).items():
            P = v(P)
            if P > 5000 or P > n:
                raise Unknown('ring')
            f = self.s.ring[nm]
            s.ring[nm] = (f[0], f[1], {j % P: self.seq[(j - self.n0) % self.p] for j in range(n - P, n)})
        for x in self.seq[:rest]:
            r = s.step(x)
            if r == 'panic' or r[0]:
                return None
        return s

    def steady(self, n):
        """one period from there (a whole number of periods) changes the state as the first ones did"""
        s = self.at(n)
        a0 = dict(s.acc)
        for x in self.seq:
            r = s.step(x)
            if r == 'panic' or r[0]:
                return False
        return all((s.acc[k] - a0[k]) & ((1 << self.width(k)) - 1) == self.d[k] for k in a0)

    def reaches(self, n):
        n -= (n - self.n0) % self.p
        ms = sorted({m - (m - self.n0) % self.p for j in range(8, 62) for m in ((1 << j) - self.p, 1 << j) if self.n0 < m <= n - self.p} | {n - self.p})
        return all(self.steady(m) for m in ms if m >= self.n0)


def targets(j, env, names):
    """numbers of bytes at which the sampled state may be reached"""
    out = []
    if 'n' in names and 'n' in env:
        out.append(env['n'])
    elif 'N' in names and 'N' in env:
        out.append(env['N'])
    for k, d in j.d.items():
        if k in names and k in env and d:
            z = (env[k] - j.s.acc[k]) & ((1 << j.width(k)) - 1)
            if z % d == 0:
                out.append(j.n0 + z // d * j.p)
    return out + [(1 << b) + k for b in (8, 16, 32) for k in (-2, -1, 0, 1)]


def far(A, base, fs, bads=None, B=None, seed=1, tries=60):
    """like scan (or lockstep, with B), on histories of very many bytes without a split"""
    rnd = random.Random(seed)
    vs = cfgvars(*([A, B] if B else [A]))
    cb = list(A.cfgbase) + (list(B.cfgbase) if B else [])
    end = time.time() + 40
    turn = 0
    for f in fs[:4]:
        lits = list(base) + list(f)
        names = set(evalt.vars_of([c for c, q in lits]))
        for env, tab, v in itertools.islice(evalt.sample([], lits, rnd.randrange(1 << 30), 1500), tries // 4):
            if time.time() > end:
                return None
            full = config_env(cb, vs, rnd, {q: env[q] for q in env if q in vs})
            if full is None:
                continue
            full.update({q: z for q, z in env.items() if q in vs})
            mode = turn % 5
            if mode:
                for q, t in vs.items():
                    if t.w == 64 and (q not in env or mode > 2):
                        full[q] = min((1 << 40) + len(q) if mode % 2 else (1 << 32) - 1 + len(q) // 2, t.args[2] if t.args[2] is not None else 1 << 41)
            turn += 1
            try:
                vv = Val(full, lambda n, o, ww: table(full, n, o, ww))
                if not all(bool(vv(c)) == q for c, q in cb):
                    continue
                for pre, seq in periodic(rnd):
                    js = [Jump(m, full, seq, pre) for m in ([B, A] if B else [A])]
                    if not all(j.ok for j in js):
                        continue
                    for n in targets(js[0], env, names):
                        if not 0 < n < 1 << 61 or any(j.at(n) is None or not j.reaches(n) for j in js):
                            continue
                        r = arrive(js, n, bads, env, rnd, full)
                        if r:
                            return r
            except Unknown:
                continue
    return None


def arrive(js, n, bads, env, rnd, full):
    at = (n - js[0].n0) % js[0].p
    for x in (env.get('byte'), js[0].seq[at], 0, 255, rnd.randrange(256)):
        if x is None:
            continue
        ss = [j.at(n) for j in js]
        if bads:
            s = ss[0]
            s.watch = bads
            s.seen = []
            try:
                s.step(x)
            except Unknown:
                pass
            for i, z in enumerate(s.seen):
                if z:
                    return full, n, i
            continue
        b, a = ss
        for t in range(300):
            rb, ra = b.step(x), a.step(x)
            if ra != rb:
                return full, n + t, ra, rb
            if ra == 'panic' or ra[0]:
                break
            x = js[0].seq[(at + t + 1) % js[0].p] if t < 100 else rnd.choice((0, 255, rnd.randrange(256)))
    return None
