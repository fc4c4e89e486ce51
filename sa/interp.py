"""Abstract interpretation of LLVM IR into gated value graphs.

A region of the control-flow graph (from one cut point, the function entry or a loop header, to the next
cut points) is evaluated once over all of its paths: every block has a gate (a decision diagram over branch
conditions), values and memory are merged at joins by the gates of the incoming edges.  No path is enumerated
and nothing is executed.
"""
import hashlib
from . import terms as tm
from .terms import (T, mk, const, is_const, cval, var, ite, band, bor, bnot, TRUE, FALSE, ap, M, single)
from . import llir
from . import theory as th


class Unsupported(Exception):
    pass


# ------------------------------------------------------------------ gate helpers

_rmemo = {}


def restrict(f, care):
    """simplify decision diagram f, whose value only matters where care holds (Coudert-Madre)"""
    if care is TRUE or f.op != 'ite':
        return f
    if care is FALSE:
        return f
    k = (f.id, care.id)
    r = _rmemo.get(k)
    if r is not None:
        return r
    cc, fc = care.args[0], f.args[0]
    if cc.id < fc.id:
        r = restrict(f, bor(care.args[1], care.args[2]))
    else:
        ch = care.args[1] if cc is fc else care
        cl = care.args[2] if cc is fc else care
        if ch is FALSE:
            r = restrict(f.args[2], cl)
        elif cl is FALSE:
            r = restrict(f.args[1], ch)
        else:
            r = tm.ite_node(fc, restrict(f.args[1], ch), restrict(f.args[2], cl))
    _rmemo[k] = r
    return r


def prune_gate(g, base=()):
    """replace infeasible paths of a gate by FALSE"""
    if g.op != 'ite':
        return g
    base = list(base)
    memo = {}

    def go(v, lits):
        if v.op != 'ite':
            return v
        c = v.args[0]
        for cc, p in lits:
            if cc is c:
                return go(v.args[1] if p else v.args[2], lits)
        out = []
        for p, sub in ((True, v.args[1]), (False, v.args[2])):
            if sub is FALSE:
                out.append(FALSE)
                continue
            l2 = lits + [(c, p)]
            if th.infeasible(l2):
                out.append(None)
            else:
                out.append(go(sub, l2))
        if out[0] is None and out[1] is None:
            return FALSE
        if out[0] is None:
            return band(bnot(tm.condv(c)), out[1]) if out[1] is not FALSE else FALSE
        if out[1] is None:
            return band(tm.condv(c), out[0]) if out[0] is not FALSE else FALSE
        return tm.ite_node(c, out[0], out[1])
    return go(g, base)


def paths(g):
    """list of literal lists of a gate"""
    out = []

    def go(v, lits):
        if v is FALSE:
            return
        if v.op != 'ite':
            out.append(lits)
            return
        go(v.args[1], lits + [(v.args[0], True)])
        go(v.args[2], lits + [(v.args[0], False)])
    go(g, [])
    return out


# ------------------------------------------------------------------ memory

def ptr(obj, off=0):
    if isinstance(off, int):
        off = const(off, 64)
    return mk('ptr', 64, (obj, off))


def mem(kind, *a):
    return mk('mem', 8, (kind,) + a)


ZERO8 = const(0, 8)
PTRVARS = set()


def m_store(m, off, size, val):
    """functional store into an array value"""
    def f(m, off, val):
        # overwrite at exactly the same place
        if m.args[0] == 'st' and m.args[2] is off and m.args[3] == size:
            m = m.args[1]
        return mem('st', m, off, size, val)
    return ap(('mst', size), f, m, off, val)


def m_copy(m, dst, src, soff, ln):
    def f(m, dst, src, soff, ln):
        if is_const(ln) and cval(ln) == 0:
            return m
        return mem('cp', m, dst, src, soff, ln)
    return ap('mcp', f, m, dst, src, soff, ln)


GDATA = {}      # canonical name -> list of (off, size, ('int', v) | ('ptr', name, off))


GINDEX = {}


def m_read(m, off, size):
    return ap(('mrd', size), lambda m, off: _read(m, off, size), m, off)


CHAIN = {}      # long runs of single bytes stored at constant places: node -> (place -> byte, what is below the run)


def _bytes(m, off):
    """the byte at a constant place, or what lies below the run of stores"""
    n = 0
    while m.args[0] == 'st' and m.args[3] == 1 and is_const(m.args[2]):
        if m.args[2] is off:
            return m.args[4], None
        n += 1
        if n > 64:
            c = CHAIN.get(m)
            if c is None:
                todo, x = [], m
                while x not in CHAIN and x.args[0] == 'st' and x.args[3] == 1 and is_const(x.args[2]):
                    todo.append(x)
                    x = x.args[1]
                d, rest = CHAIN.get(x, ({}, x))
                d = dict(d)
                for y in reversed(todo):
                    d[y.args[2]] = y.args[4]
                if len(CHAIN) > 2000:
                    CHAIN.clear()
                c = CHAIN[m] = (d, rest)
            v = c[0].get(off)
            return (v, None) if v is not None else (None, c[1])
        m = m.args[1]
    return None, m


def _read(m, off, size):
    k = m.args[0]
    if k == 'st' and size == 1 and is_const(off):
        v, m = _bytes(m, off)
        if v is not None:
            return v
        k = m.args[0]
    if k == 'init':
        return tm.atomv(mk('rd', size * 8, (m.args[1], off)))
    if k == 'fill':
        b = m.args[1]
        if size == 1:
            return b
        if is_const(b):
            return const(int.from_bytes(bytes([cval(b)]) * size, 'little'), size * 8)
        raise Unsupported('wide read of fill')
    if k == 'undef':
        return mk('undef', size * 8, ())
    if k == 'glob':
        return gread(m.args[1], off, size)
    if k == 'st':
        prev, o, s, v = m.args[1:]
        if s == size:
            c = tm.l_eq(off, o)
            if c is TRUE:
                return v
            if c is FALSE:
                return _read(prev, off, size)
            return ite(c, v, m_read(prev, off, size))
        d = tm.p_sub(off, o)
        if is_const(d):
            dv = cval(d)
            if dv >= 1 << 63:
                dv -= 1 << 64
            if dv + size <= 0 or dv >= s:
                return _read(prev, off, size)
            if 0 <= dv and dv + size <= s:
                return tm.trunc(tm.lshr(v, const(8 * dv, v.w)), size * 8)
        raise Unsupported('array access of mixed sizes')
    if k == 'cp':
        prev, dst, src, soff, ln = m.args[1:]
        rel = tm.p_sub(off, dst)
        if size == 1:
            c = tm.ult(rel, ln)
        else:
            hi = tm.p_add(rel, const(size - 1, 64))
            if tm.rng(hi)[1] < tm.rng(ln)[0] and th.exact(rel):
                c = TRUE
            elif th.exact(rel) and tm.rng(rel)[0] >= tm.rng(ln)[1]:
                c = FALSE
            else:
                raise Unsupported('wide read of partial copy')
        a = m_read(src, tm.p_add(soff, rel), size) if c is not FALSE else None
        b = m_read(prev, off, size) if c is not TRUE else None
        if c is TRUE:
            return a
        if c is FALSE:
            return b
        return ite(c, a, b)
    raise Unsupported('read of %s' % k)


def gread(name, off, size):
    d = GDATA[name]
    if is_const(off):
        o = cval(off)
        ix = GINDEX.get(name)
        if ix is None or ix[0] is not d or ix[2] != len(d):
            ix = GINDEX[name] = (d, {(po, ps): v for po, ps, v in reversed(d)}, len(d))
        v = ix[1].get((o, size))
        if v is not None:
            if v[0] == 'int':
                return const(v[1], 8 * size)
            return ptr(v[1], v[2])
        acc = 0
        for i in range(size):
            for po, ps, v in d:
                if po <= o + i < po + ps and v[0] == 'int':
                    acc |= (v[1] >> (8 * (o + i - po)) & 0xff) << (8 * i)
                    break
            else:
                raise Unsupported('global read out of bounds: %s+%d' % (name, o))
        return const(acc, 8 * size)
    # a table element with a symbolic index: offset must be size-aligned by construction
    return tm.atomv(mk('tbl', 8 * size, (name, off)))


class Obj:
    """fixed-offset cells of an object; kind says what untouched bytes are"""
    __slots__ = ('name', 'kind', 'cells')

    def __init__(self, name, kind, cells=None):
        self.name = name
        self.kind = kind            # 'sym' | 'undef' | 'array'
        self.cells = cells or {}    # off -> (size, V | ('slice', Obj, off))

    def copy(self):
        return Obj(self.name, self.kind, dict(self.cells))

    # scalar access ------------------------------------------------------
    def overlapping(self, off, size):
        return [(o, s, v) for o, (s, v) in self.cells.items() if o < off + size and off < o + s]

    def load(self, off, size, isptr=False):
        c = self.cells.get(off)
        if c is not None and c[0] == size and not isinstance(c[1], tuple) and c[1].op != 'undef_arr' and not isarr(c[1]):
            return c[1]
        ov = self.overlapping(off, size)
        if not ov:
            if self.kind == 'sym':
                v = var('%s+%d' % (self.name, off), 8 * size)
                if isptr:
                    PTRVARS.add(tm.single(v))
                self.cells[off] = (size, v)
                return v
            return mk('undef', 8 * size, ())
        if len(ov) == 1:
            o, s, v = ov[0]
            if o <= off and off + size <= o + s:
                if isinstance(v, tuple):
                    return v[1].load(v[2] + off - o, size, isptr)
                if isarr(v):
                    return m_read(v, const(off - o, 64), size)
                if v.op == 'undef':
                    return mk('undef', 8 * size, ())
                return tm.trunc(tm.lshr(v, const(8 * (off - o), v.w)), 8 * size)
        # assemble from pieces
        acc = None
        pos = off
        for o, s, v in sorted(ov):
            if o < pos or o + s > off + size:
                # piece reaches outside: take the bytes we need
                a, b = max(o, pos), min(o + s, off + size)
                x = self.load(a, b - a)
                o, s, v = a, b - a, x
            if o != pos:
                gap = self.load(pos, o - pos)
                acc = piece(acc, gap, pos - off, size)
                pos = o
            if isinstance(v, tuple) or isarr(v):
                v = self.load(o, s) if o != off or s != size else None
                if v is None:
                    raise Unsupported('array piece')
            acc = piece(acc, v, pos - off, size)
            pos = o + s
        if pos < off + size:
            acc = piece(acc, self.load(pos, off + size - pos), pos - off, size)
        return acc

    def carve(self, off, size):
        """make room for a write of [off, off+size): split what sticks out"""
        for o, s, v in self.overlapping(off, size):
            if o == off and s == size:
                continue
            if o >= off and o + s <= off + size:
                del self.cells[o]
                continue
            if isarr(v):
                raise Unsupported('scalar write into an array zone')
            left = (o, off - o) if o < off else None
            right = (off + size, o + s - off - size) if o + s > off + size else None
            parts = []
            for pr in (left, right):
                if pr:
                    if isinstance(v, tuple):
                        parts.append((pr[0], pr[1], ('slice', v[1], v[2] + pr[0] - o)))
                    else:
                        parts.append((pr[0], pr[1], self.load(pr[0], pr[1])))
            del self.cells[o]
            for a, n, x in parts:
                self.cells[a] = (n, x)

    def store(self, off, size, v):
        z = self.zone_at(off, size)
        if z is not None:
            zo, zs, zv = z
            self.cells[zo] = (zs, m_store(zv, const(off - zo, 64), size, v))
            return
        self.carve(off, size)
        self.cells[off] = (size, v)

    def zone_at(self, off, size):
        for o, (s, v) in self.cells.items():
            if not isinstance(v, tuple) and isarr(v) and o <= off and off + size <= o + s:
                return o, s, v
        return None

    # arrays ---------------------------------------------------------------
    def zone(self, lo, hi):
        """array zone covering [lo, hi)"""
        for o, (s, v) in list(self.cells.items()):
            if o <= lo and hi <= o + s and not isinstance(v, tuple) and isarr(v):
                return o, s, v
        ov = self.overlapping(lo, hi - lo)
        if not ov:
            if self.kind == 'sym':
                v = mem('init', '%s+%d' % (self.name, lo))
            else:
                v = mem('undef')
            self.cells[lo] = (hi - lo, v)
            return lo, hi - lo, v
        if len(ov) == 1 and isinstance(ov[0][2], tuple):
            o, s, v = ov[0]
            if o <= lo and hi <= o + s:
                so, ss, sv = v[1].zone(v[2] + lo - o, v[2] + hi - o)
                sh = so - (v[2] - o)        # position of the zone in this object
                if sh == lo and ss == hi - lo:
                    self.carve(lo, hi - lo)
                    self.cells[lo] = (hi - lo, sv)
                    return lo, hi - lo, sv
        raise Unsupported('array zone overlaps fields of %s [%d,%d)' % (self.name, lo, hi))


def isarr(v):
    while v.op == 'ite':
        v = v.args[1]
    return v.op == 'mem'


def piece(acc, v, at, size):
    if v.op == 'undef' or (acc is not None and acc.op == 'undef'):
        return mk('undef', 8 * size, ())
    x = tm.shl(tm.zext(v, 8 * size), const(8 * at, 8 * size)) if v.w < 8 * size else v
    return x if acc is None else tm.or_(acc, x)


class State:
    __slots__ = ('objs',)

    def __init__(self, objs=None):
        self.objs = objs if objs is not None else {}

    def copy(self):
        return State(dict(self.objs))

    def get(self, name):
        return self.objs.get(name)

    def wr(self, name):
        o = self.objs[name].copy()
        self.objs[name] = o
        return o

    def setarray(self, name, v):
        self.objs[name] = Obj(name, 'array', {0: (1 << 62, v)})

    def array(self, name):
        return self.objs[name].cells[0][1]


def merge_states(items):
    """items: [(cond, State)] with disjoint conds, the last one's cond implied by the others failing"""
    acc = items[-1][1]
    for c, s in reversed(items[:-1]):
        acc = merge2(c, s, acc)
    return acc


def merge2(c, a, b):
    if c is TRUE or a is b:
        return a
    if c is FALSE:
        return b
    out = {}
    for n in set(a.objs) | set(b.objs):
        x, y = a.objs.get(n), b.objs.get(n)
        if x is None or y is None or x is y:
            out[n] = x or y
            continue
        out[n] = merge_obj(c, x, y)
    return State(out)


def merge_obj(c, x, y):
    r = Obj(x.name, x.kind)
    todo = []
    offs = sorted(set(x.cells) | set(y.cells))
    done = set()
    for o in offs:
        cx, cy = x.cells.get(o), y.cells.get(o)
        if cx is not None and cy is not None and cx[0] == cy[0] and samev(cx[1], cy[1]):
            r.cells[o] = cx
            continue
        size = min(v[0] for v in (cx, cy) if v is not None)
        arr = any(v is not None and not isinstance(v[1], tuple) and isarr(v[1]) for v in (cx, cy))
        if arr:
            size = max(v[0] for v in (cx, cy) if v is not None)
            zx = x.zone(o, o + size)
            zy = y.zone(o, o + size)
            if zx[:2] != zy[:2]:
                raise Unsupported('merge of zones')
            r.cells[zx[0]] = (zx[1], ite(c, zx[2], zy[2]))
            continue
        if isinstance((cx or cy)[1], tuple) and (cy is None or isinstance(cy[1], tuple)) and \
                (cx is None or isinstance(cx[1], tuple)):
            # slices of other objects: materialise in words
            a = sorted(set(range(o, o + size, 8)))
            for w in a:
                n = min(8, o + size - w)
                vx, vy = x.load(w, n), y.load(w, n)
                r.cells[w] = (n, ite2(c, vx, vy))
            continue
        if any(o < p + s2 and p < o + size for p, (s2, _) in r.cells.items() if p != o):
            continue
        vx, vy = x.load(o, size), y.load(o, size)
        r.cells[o] = (size, ite2(c, vx, vy))
        big = max(v[0] for v in (cx, cy) if v is not None)
        if big > size:
            for w in range(o + size, o + big):
                if w in x.cells or w in y.cells:
                    break
            else:
                n = big - size
                vx, vy = x.load(o + size, n), y.load(o + size, n)
                r.cells[o + size] = (n, ite2(c, vx, vy))
    return r


def samev(a, b):
    if isinstance(a, tuple) or isinstance(b, tuple):
        return isinstance(a, tuple) and isinstance(b, tuple) and a[1] is b[1] and a[2] == b[2]
    return a is b


def ite2(c, a, b):
    if a.op == 'undef' and not isarr(b):
        return b
    if b.op == 'undef' and not isarr(a):
        return a
    return ite(c, a, b)


# ------------------------------------------------------------------ globals

class Globals:
    def __init__(self, m):
        self.m = m
        self.canon = {}

    def name(self, g):
        """canonical, content-derived name of a constant global"""
        if g in self.canon:
            return self.canon[g]
        ty, init, isc = self.m.globals.get(g, (None, None, False))
        if init is None or not isc:
            n = 'G:' + g
            self.canon[g] = n
            GDATA[n] = []
            return n
        self.canon[g] = 'G:rec'
        d = []
        self.flat(ty, init, 0, d)
        h = hashlib.sha256(repr(d).encode()).hexdigest()[:12]
        n = 'G:%s' % h
        self.canon[g] = n
        GDATA[n] = d
        return n

    def flat(self, ty, v, off, d):
        k = v[0]
        if k == 'int':
            d.append((off, llir.sizeof(ty), ('int', v[1] & M(8 * llir.sizeof(ty)))))
        elif k == 'bytes':
            for i, b in enumerate(v[1]):
                d.append((off + i, 1, ('int', b)))
        elif k == 'zero' or k == 'undef' or k == 'null':
            n = llir.sizeof(ty) if ty else 8
            if ty[0] == 'arr' and ty[2][0] == 'i' and ty[2][1] > 8:
                s = llir.sizeof(ty[2])
                for i in range(ty[1]):
                    d.append((off + i * s, s, ('int', 0)))
            elif ty[0] in ('i', 'ptr'):
                d.append((off, n, ('int', 0)))
            else:
                for i in range(n):
                    d.append((off + i, 1, ('int', 0)))
        elif k == 'agg':
            o = off
            for et, ev in v[1]:
                if ty[0] == 'struct':
                    a = llir.alignof(et)
                    o = (o + a - 1) // a * a
                self.flat(et, ev, o, d)
                o += llir.sizeof(et)
        elif k == 'glob':
            d.append((off, 8, ('ptr', self.name(v[1]), 0)))
        elif k == 'cgep':
            base = v[2]
            o = 0
            if len(v[3]) == 1 and v[3][0][1][0] == 'int':
                o = v[3][0][1][1] * llir.sizeof(v[1])
            d.append((off, 8, ('ptr', self.name(base[1]) if base[0] == 'glob' else '?', o)))
        else:
            d.append((off, 8, ('ptr', '?%s' % k, 0)))


# ------------------------------------------------------------------ control flow

class Cfg:
    def __init__(self, f):
        self.f = f
        self.succ = {}
        for b, ins in f.blocks.items():
            t = ins[-1]
            if t.op == 'br':
                s = [t.a[1]] if t.a[0] is None else [t.a[1], t.a[2]]
            elif t.op == 'switch':
                s = [t.a[2]] + [c[1] for c in t.a[3]]
            elif t.op == 'invoke':
                s = [t.a[3]]
            else:
                s = []
            self.succ[b] = s
        self.headers = set()
        self.rpo = []
        seen = {}
        st = [(f.entry, iter(self.succ[f.entry]))]
        seen[f.entry] = 1
        while st:
            b, it = st[-1]
            for s in it:
                if s not in seen:
                    seen[s] = 1
                    st.append((s, iter(self.succ[s])))
                    break
                elif seen[s] == 1:
                    self.headers.add(s)
            else:
                st.pop()
                seen[b] = 2
                self.rpo.append(b)
        self.rpo.reverse()
        self.idx = {b: i for i, b in enumerate(self.rpo)}


class Out:
    def __init__(self, kind, where, gate, state, phis=None, ret=None, env=None):
        self.kind, self.where, self.gate, self.state, self.phis, self.ret, self.env = \
            kind, where, gate, state, phis, ret, env

    def __repr__(self):
        return 'Out(%s %s gate=%s)' % (self.kind, self.where, tm.show(self.gate)[:200])


BITS = {'ctpop': lambda x, w: bin(x).count('1'), 'cttz': lambda x, w: (x & -x).bit_length() - 1 if x else w,
        'bswap': lambda x, w: int.from_bytes(x.to_bytes(w // 8, 'little'), 'big'),
        'bitreverse': lambda x, w: int(bin(x)[2:].rjust(w, '0')[::-1], 2)}

PANICS = ('panicking', 'slice_index_fail', 'unwrap_failed', 'expect_failed', 'handle_error', 'handle_alloc_error',
          'assert_failed', 'RangeError', 'capacity_overflow', 'panic_const', 'len_mismatch', 'copy_from_slice_impl')


def is_panic(n):
    return any(p in n for p in PANICS)


NOOPS = ('@llvm.experimental.noalias.scope.decl', '@llvm.lifetime.start.p0', '@llvm.lifetime.end.p0',
         '@llvm.dbg.value', '@llvm.dbg.declare')


class Exec:
    """one function under evaluation"""

    def __init__(self, m, g, name, base=(), tag=''):
        self.m = m
        self.g = g
        self.f = m.fns.get('@' + name)
        if self.f is None:
            raise Unsupported('no function %s' % name)
        self.cfg = cfgof(self.f)
        self.name = name
        self.base = list(base)      # literals known to hold
        self.tag = tag
        self.nheap = 0
        self.events = []            # (kind, where, gate, info)
        self.copies = []            # (gate, length, where)
        self.opaque = None

    # ---- values
    def val(self, v, ty, env):
        k = v[0]
        if k == 'reg':
            return env[v[1]]
        if k == 'int':
            return const(v[1], v[2])
        if k == 'null':
            return const(0, 64)
        if k == 'undef':
            return mk('undef', width(ty), ())
        if k == 'zero':
            if ty[0] in ('i', 'ptr'):
                return const(0, width(ty))
            raise Unsupported('aggregate zero')
        if k == 'glob':
            return ptr(self.g.name(v[1]))
        if k == 'cgep':
            b = self.val(v[2], ('ptr',), env)
            return self.gep(v[1], b, v[3], env)
        if k == 'ccast':
            x = self.val(v[3], v[2], env)
            if v[1] in ('inttoptr', 'ptrtoint', 'bitcast', 'addrspacecast'):
                return x
            return tm.trunc(x, width(v[4]))
        if k == 'fp':
            return mk('fp', 64, (v[1],))
        if k == 'cbin':
            a, b = self.val(v[2], ('i', 64), env), self.val(v[3], ('i', 64), env)
            return tm.sub(a, b) if v[1] == 'sub' else tm.add(a, b)
        raise Unsupported('value %s' % (v,))

    def gep(self, t, b, idx, env):
        off = None
        cur = t
        for i, (it, iv) in enumerate(idx):
            x = self.val(iv, it, env)
            if i == 0:
                x = tm.mul(sx(x), const(llir.sizeof(t), 64))
            else:
                if cur[0] == 'struct':
                    o = 0
                    for j in range(iv[1] + 1):
                        a = llir.alignof(cur[1][j])
                        o = (o + a - 1) // a * a
                        if j < iv[1]:
                            o += llir.sizeof(cur[1][j])
                    cur = cur[1][iv[1]]
                    x = const(o, 64)
                elif cur[0] == 'arr':
                    cur = cur[2]
                    x = tm.mul(sx(x), const(llir.sizeof(cur), 64))
                else:
                    raise Unsupported('gep')
            off = x if off is None else tm.add(off, x)
        return tm.add(b, off)

    # ---- memory
    def resolve(self, p, st):
        """(object name, offset leaf) of a pointer leaf"""
        if p.op == 'ptr':
            return p.args[0], p.args[1]
        if p.op != 'poly':
            raise Unsupported('dereference of %s' % p.op)
        cands = [mono[0] for mono, k in p.args[1] if k == 1 and len(mono) == 1 and mono[0].op in ('var', 'rd')]
        c = [a for a in cands if a in PTRVARS]
        if len(c) != 1:
            c = cands
        if len(c) != 1:
            raise Unsupported('dereference of %s' % tm.show(p)[:120])
        PTRVARS.add(c[0])
        nm = 'own:' + (c[0].args[0] if c[0].op == 'var' else tm.show(c[0]))
        if nm not in st.objs:
            st.setarray(nm, mem('init', nm))
        return nm, tm.p_sub(p, tm.atomv(c[0]))

    def leaves(self, p, gate):
        """(cond, leaf) alternatives of a pointer value"""
        out = []

        def go(v, c):
            if v.op == 'ite':
                cc = tm.condv(v.args[0])
                go(v.args[1], band(c, cc))
                go(v.args[2], band(c, bnot(cc)))
            else:
                out.append((c, v))
        go(p, TRUE)
        if len(out) == 1:
            return out
        r = []
        for c, v in out:
            g = prune_gate(band(gate, c), self.base)
            if g is not FALSE:
                r.append((restrict(c, gate), v))
        return r

    def load(self, st, p, size, isptr, gate):
        r = None
        for c, leaf in self.leaves(p, gate):
            if leaf.op == 'undef' or (leaf.op == 'poly' and is_const(leaf)):
                continue
            v = self.load1(st, leaf, size, isptr)
            r = v if r is None else ite2(c, v, r)
        if r is None:
            return mk('undef', 8 * size, ())
        return r

    def load1(self, st, leaf, size, isptr):
        name, off = self.resolve(leaf, st)
        if name.startswith('G:'):
            return gread(name, off, size)
        o = st.objs.get(name)
        if o is None:
            raise Unsupported('load from unknown object %s' % name)
        if o.kind == 'array':
            return m_read(o.cells[0][1], off, size)
        if is_const(off):
            c = cval(off)
            o = st.wr(name)
            return o.load(c, size, isptr)
        lo, hi = tm.rng(off)
        if hi > 1 << 20:
            raise Unsupported('unbounded index into %s' % name)
        o = st.wr(name)
        zo, zs, zv = o.zone(lo, hi + size)
        return m_read(zv, tm.p_sub(off, const(zo, 64)), size)

    def store(self, st, p, v, size, gate):
        alts = self.leaves(p, gate)
        if len(alts) == 1:
            return self.store1(st, alts[0][1], v, size)
        for c, leaf in alts:
            if leaf.op == 'undef' or (leaf.op == 'poly' and is_const(leaf)):
                continue
            s2 = st.copy()
            self.store1(s2, leaf, v, size)
            m = merge2(c, s2, st)
            st.objs = m.objs

    def store1(self, st, leaf, v, size):
        name, off = self.resolve(leaf, st)
        o = st.objs.get(name)
        if o is None:
            raise Unsupported('store to unknown object %s' % name)
        o = st.wr(name)
        if o.kind == 'array':
            o.cells[0] = (1 << 62, m_store(o.cells[0][1], off, size, v))
            return
        if is_const(off):
            o.store(cval(off), size, v)
            return
        lo, hi = tm.rng(off)
        if hi > 1 << 20:
            raise Unsupported('unbounded index into %s' % name)
        zo, zs, zv = o.zone(lo, hi + size)
        o.cells[zo] = (zs, m_store(zv, tm.p_sub(off, const(zo, 64)), size, v))

    def one(self, p, gate):
        a = [(c, l) for c, l in self.leaves(p, gate) if not (l.op == 'poly' and is_const(l) and cval(l) == 0)]
        if len(a) != 1:
            raise Unsupported('pointer with alternatives in a block copy')
        return a[0][1]

    def memcpy(self, st, d, s, n, gate):
        if n.op == 'ite':
            # copy under each alternative length
            c = tm.condv(n.args[0])
            s1, s2 = st.copy(), st.copy()
            g1, g2 = prune_gate(band(gate, c), self.base), prune_gate(band(gate, bnot(c)), self.base)
            if g1 is not FALSE:
                self.memcpy(s1, d, s, n.args[1], g1)
            if g2 is not FALSE:
                self.memcpy(s2, d, s, n.args[2], g2)
            if g1 is FALSE:
                st.objs = s2.objs
            elif g2 is FALSE:
                st.objs = s1.objs
            else:
                st.objs = merge2(restrict(c, gate), s1, s2).objs
            return
        if n.op != 'poly':
            raise Unsupported('copy length')
        if is_const(n) and cval(n) == 0:
            return
        for v in (d, s):
            if v.op == 'ite' and len(self.leaves(v, gate)) > 1:
                c = tm.condv(v.args[0])
                s1, s2 = st.copy(), st.copy()
                k = lambda x, i: x.args[i] if x.op == 'ite' and x.args[0] is v.args[0] else x
                g1, g2 = prune_gate(band(gate, c), self.base), prune_gate(band(gate, bnot(c)), self.base)
                self.memcpy(s1, k(d, 1), k(s, 1), n, g1)
                self.memcpy(s2, k(d, 2), k(s, 2), n, g2)
                st.objs = merge2(restrict(c, gate), s1, s2).objs
                return
        d, s = self.one(d, gate), self.one(s, gate)
        sn, so = self.resolve(s, st)
        dn, do = self.resolve(d, st)
        so_ = st.objs.get(sn)
        do_ = st.objs.get(dn)
        if do_ is None:
            raise Unsupported('copy to unknown object %s' % dn)
        if sn.startswith('G:'):
            srcarr = mem('glob', sn)
        elif so_.kind == 'array':
            srcarr = so_.cells[0][1]
        else:
            srcarr = None
        if do_.kind == 'array':
            if srcarr is None:
                if not (is_const(so) and is_const(n)):
                    raise Unsupported('copy from fields to array')
                w = st.wr(sn)
                zo, zs, zv = w.zone(cval(so), cval(so) + cval(n))
                srcarr, so = zv, const(cval(so) - zo, 64)
            w = st.wr(dn)
            w.cells[0] = (1 << 62, m_copy(w.cells[0][1], do, srcarr, so, n))
            return
        if not (is_const(do) and is_const(n)):
            # symbolic place inside an array zone of an object
            lo, hi = tm.rng(do)
            raise Unsupported('symbolic copy into %s' % dn)
        do, n = cval(do), cval(n)
        w = st.wr(dn)
        if srcarr is not None:
            if n <= 8 and is_const(so):
                w.store(do, n, m_read(srcarr, so, n))
                return
            w.carve(do, n)
            w.cells[do] = (n, m_copy(mem('undef'), const(0, 64), srcarr, so, const(n, 64))
                           if not (srcarr.op == 'mem' and srcarr.args[0] == 'fill') else srcarr)
            return
        if not is_const(so):
            raise Unsupported('copy from symbolic field')
        snap = so_.copy()
        if so_.kind == 'sym':
            # reading an untouched field later must give the same name everywhere: share the snapshot
            st.objs[sn] = snap
        self.copy_cells(w, do, snap, cval(so), n)

    def copy_cells(self, w, do, src, so, n):
        w.carve(do, n)
        if do in w.cells:
            del w.cells[do]
        inside = [(o, s, v) for o, s, v in src.overlapping(so, n)]
        pos = so
        for o, s, v in sorted(inside, key=lambda x: x[0]):
            if o < so or o + s > so + n:
                w.cells[do] = (n, ('slice', src, so))
                for x in list(w.cells):
                    if x != do and do <= x < do + n:
                        del w.cells[x]
                return
            if o > pos:
                w.cells[do + pos - so] = (o - pos, ('slice', src, pos))
            w.cells[do + o - so] = (s, v)
            pos = o + s
        if pos < so + n:
            w.cells[do + pos - so] = (so + n - pos, ('slice', src, pos))

    # ---- instructions
    def ev(self, i, env, st, gate):
        """evaluate a non-terminator; returns None or an Out"""
        op, a = i.op, i.a
        if op in llir.BIN:
            t = a[0]
            x, y = self.val(a[1], t, env), self.val(a[2], t, env)
            env[i.res] = self.binop(op, t, x, y, a[3])
            return
        if op == 'icmp':
            p, t = a[0], a[1]
            x, y = self.val(a[2], t, env), self.val(a[3], t, env)
            env[i.res] = icmp(p, x, y)
            return
        if op in llir.CAST:
            t, v, t2, fl = a
            x = self.val(v, t, env)
            env[i.res] = cast(op, x, t, t2)
            return
        if op == 'select':
            c = self.val(a[0], ('i', 1), env)
            x, y = self.val(a[2], a[1], env), self.val(a[3], a[1], env)
            env[i.res] = sel(c, x, y)
            return
        if op == 'load':
            t = a[0]
            p = self.val(a[1], ('ptr',), env)
            if t[0] not in ('i', 'ptr'):
                if t[0] in ('double',):
                    raise Unsupported('fp load')
                raise Unsupported('load of %s' % (t,))
            n = llir.sizeof(t)
            v = self.load(st, p, n, t[0] == 'ptr', gate)
            if t[0] == 'i' and t[1] != 8 * n:
                v = tm.trunc(v, t[1]) if t[1] != 1 else tobool(v)
            env[i.res] = v
            return
        if op == 'store':
            t = a[0]
            v = self.val(a[1], t, env)
            p = self.val(a[2], ('ptr',), env)
            n = llir.sizeof(t)
            if t[0] not in ('i', 'ptr'):
                raise Unsupported('store of %s' % (t,))
            if t[0] == 'i' and t[1] != 8 * n:
                v = tm.zext(v, 8 * n) if v.w != 1 else ite(v, const(1, 8 * n), const(0, 8 * n))
            self.store(st, p, v, n, gate)
            return
        if op == 'getelementptr':
            b = self.val(a[1], ('ptr',), env)
            env[i.res] = self.gep(a[0], b, a[2], env)
            return
        if op == 'alloca':
            n = 'alloca:%s:%s%s' % (self.name, i.res, self.tag)
            st.objs[n] = Obj(n, 'undef')
            env[i.res] = ptr(n)
            return
        if op == 'freeze':
            env[i.res] = self.val(a[1], a[0], env)
            return
        if op == 'extractvalue':
            v = env[a[1][1]] if a[1][0] == 'reg' else None
            if isinstance(v, tuple):
                env[i.res] = v[a[3][0]]
                return
            raise Unsupported('extractvalue')
        if op == 'insertvalue':
            v = env.get(a[1][1]) if a[1][0] == 'reg' else None
            n = len(a[0][1])
            v = list(v) if isinstance(v, tuple) else [None] * n
            v[a[3][0]] = self.val(a[2], a[0][1][a[3][0]], env)
            env[i.res] = tuple(v)
            return
        if op == 'fcmp':
            x, y = self.val(a[2], a[1], env), self.val(a[3], a[1], env)
            env[i.res] = ap(('fcmp', a[0]), lambda x, y: tm.condv(mk('fcmp', 1, (a[0], x, y))), x, y)
            return
        if op in ('call', 'invoke'):
            return self.call(i, env, st, gate)
        raise Unsupported('%s at %s' % (op, self.m.where(i.dbg)))

    def binop(self, op, t, x, y, fl):
        if op[0] == 'f':
            return ap(('fp', op), lambda x, y: mk('fp', 64, (op, x, y)), x, y)
        if t == ('i', 1):
            if op == 'and':
                return band(x, y)
            if op == 'or':
                return bor(x, y)
            if op in ('xor', 'add', 'sub'):
                return tm.bxor(x, y)
            raise Unsupported('i1 %s' % op)
        f = {'add': tm.add, 'sub': tm.sub, 'mul': tm.mul, 'and': tm.and_, 'or': tm.or_, 'xor': tm.xor_,
             'shl': tm.shl, 'lshr': tm.lshr, 'udiv': tm.udiv, 'urem': tm.urem, 'ashr': tm.ashr}.get(op)
        if f is None:
            raise Unsupported(op)
        return f(x, y)

    def panic(self, i, gate, callee):
        return Out('panic', (self.m.where(i.dbg), callee, i.dbg), gate, None)

    def call(self, i, env, st, gate):
        rt, callee, args, norm, ra = i.a
        if callee in NOOPS:
            return
        av = lambda k: self.val(args[k][1], args[k][0], env)
        if callee == '@llvm.assume':
            return
        if callee.startswith('@llvm.is.constant'):
            # either answer is correct; both branches compute the same
            env[i.res] = tm.FALSE
            return
        if callee.startswith('@llvm.expect'):
            env[i.res] = av(0)
            return
        if callee.startswith('@llvm.memcpy') or callee.startswith('@llvm.memmove'):
            self.copies.append((gate, av(2), i.dbg))
            self.memcpy(st, av(0), av(1), av(2), gate)
            return
        if callee.startswith('@llvm.memset'):
            self.copies.append((gate, av(2), i.dbg))
            self.memset(st, av(0), av(1), av(2), gate)
            return
        if callee.startswith('@llvm.fshl') or callee.startswith('@llvm.fshr'):
            x, y, k = av(0), av(1), av(2)
            if x is not y:
                raise Unsupported('funnel shift of two values')
            if 'fshr' in callee:
                k = tm.sub(const(0, k.w), k)
            env[i.res] = tm.rotl(x, k)
            return
        mm = callee.split('.')
        if callee.startswith('@llvm.umin'):
            env[i.res] = tm.umin(av(0), av(1))
            return
        if callee.startswith('@llvm.umax'):
            env[i.res] = tm.umax(av(0), av(1))
            return
        if callee.startswith('@llvm.usub.sat'):
            x, y = av(0), av(1)
            env[i.res] = ite(tm.ult(x, y), const(0, x.w), tm.sub(x, y))
            return
        if callee.startswith('@llvm.uadd.sat'):
            x, y = av(0), av(1)
            s = tm.add(x, y)
            env[i.res] = ite(tm.ult(s, x), const(M(x.w), x.w), s)
            return
        if callee.startswith('@llvm.ctlz'):
            env[i.res] = ap('ctlz', lambda x: tm.atomv(mk('ctlz', x.w, (x,))) if not is_const(x)
                            else const(x.w - cval(x).bit_length(), x.w), av(0))
            return
        if callee.split('.')[1:2] and callee.startswith('@llvm.') and callee.split('.')[1] in BITS:
            n = callee.split('.')[1]
            env[i.res] = ap(('bits', n), lambda x: tm.atomv(mk('uf', x.w, (n, x))) if not is_const(x) else const(BITS[n](cval(x), x.w), x.w), av(0))
            return
        if callee.startswith('@llvm.smin') or callee.startswith('@llvm.smax'):
            x, y = av(0), av(1)
            c = icmp('slt', x, y)
            env[i.res] = ite2(c, x, y) if 'smin' in callee else ite2(c, y, x)
            return
        if callee.startswith('@llvm.uadd.with.overflow'):
            x, y = av(0), av(1)
            s = tm.add(x, y)
            env[i.res] = (s, tm.ult(s, x))
            return
        if callee.startswith('@llvm.usub.with.overflow'):
            x, y = av(0), av(1)
            env[i.res] = (tm.sub(x, y), tm.ult(x, y))
            return
        if callee.startswith('@llvm.umul.with.overflow'):
            x, y = av(0), av(1)
            env[i.res] = (tm.mul(x, y), mulov(x, y))
            return
        if callee in ('@llvm.log2.f64', '@llvm.floor.f64', '@llvm.fptoui.sat.i8.f64') or callee.startswith('@llvm.fpto') \
                or callee.startswith('@llvm.log2'):
            n = callee[6:]
            if n.startswith('fpto'):
                w = width(rt)
                env[i.res] = ap(('cv', n), lambda x: tm.atomv(mk('uf', w, (n, x))), av(0))
            else:
                env[i.res] = ap(('fp', n), lambda x: mk('fp', 64, (n, x)), av(0))
            return
        if callee.endswith('___rust_no_alloc_shim_is_unstable_v2'):
            return
        if callee.endswith('___rust_alloc') or callee.endswith('___rust_alloc_zeroed'):
            self.nheap += 1
            n = 'heap:%d%s' % (self.nheap, self.tag)
            st.setarray(n, mem('fill', ZERO8) if callee.endswith('zeroed') else mem('undef'))
            self.events.append(('alloc', self.m.where(i.dbg), gate, (n, av(0))))
            env[i.res] = ptr(n)
            return
        if callee.endswith('___rust_dealloc'):
            self.events.append(('free', self.m.where(i.dbg), gate, av(0)))
            return
        if 'grow_one' in callee or callee.endswith('___rust_realloc') or callee.endswith('4grow') or 'VecDeque' in callee and 'grow' in callee:
            if callee.endswith('RawVechE8grow_oneB7_') or 'RawVechE8grow_one' in callee:
                if self.grown(st, av(0), gate):
                    return
            self.events.append(('grow', self.m.where(i.dbg), gate, callee))
            return Out('grow', (self.m.where(i.dbg), callee, i.dbg), gate, None)
        if callee in ('@bcmp', '@memcmp'):
            env[i.res] = self.bcmp(st, av(0), av(1), av(2), gate)
            return
        if callee == '@opaque_push':
            # an arbitrary chunker: its answer is an uninterpreted function of its state and the slice it is given
            a = [av(k) for k in range(4)]
            ch = self.load(st, a[0], 8, False, gate)
            key = (ch, a[1], a[2])
            self.events.append(('opaque', self.m.where(i.dbg), gate, key))
            self.store(st, a[3], tm.uf('push.tag', 64, *key), 8, gate)
            self.store(st, tm.add(a[3], const(8, 64)), tm.umin(tm.uf('push.idx', 64, *key), a[2]), 8, gate)
            self.store(st, a[0], tm.uf('push.chunker', 64, *key), 8, gate)
            return
        if is_panic(callee):
            return self.panic(i, gate, callee)
        fn = self.m.fns.get(callee)
        raise Unsupported('call of %s at %s' % (callee, self.m.where(i.dbg)))

    def grown(self, st, v, gate):
        """growth of a vector of bytes whose capacity is known: the standard library's amortised growth"""
        nm, off = self.resolve(self.one(v, gate), st)
        if not is_const(off) or cval(off) < 0:
            return False
        o = st.wr(nm)
        off = cval(off)
        cap, p = o.load(off, 8), o.load(off + 8, 8)
        if isinstance(cap, tuple) or not is_const(cap) or isarr(p) or not (p.op == 'ptr' or is_const(p)):
            return False
        n = cval(cap)
        if n == 0:
            old = None
        elif p.op == 'ptr' and is_const(p.args[1]) and cval(p.args[1]) == 0 and st.objs[p.args[0]].kind == 'array':
            old = st.array(p.args[0])
        else:
            return False
        self.nheap += 1
        new = 'heap:%d%s' % (self.nheap, self.tag)
        st.setarray(new, mem('undef') if old is None else m_copy(mem('undef'), const(0, 64), old, const(0, 64), const(n, 64)))
        self.events.append(('alloc', '', gate, (new, const(max(2 * n, 8), 64))))
        o.store(off, 8, const(max(2 * n, 8), 64))
        o.store(off + 8, 8, ptr(new))
        return True

    def bcmp(self, st, p, q, n, gate):
        """0 iff equal: an uninterpreted comparison of the two array contents"""
        def content(x):
            x = self.one(x, gate)
            nm, off = self.resolve(x, st)
            if nm.startswith('G:'):
                return mem('glob', nm), off
            o = st.objs[nm]
            if o.kind == 'array':
                return o.cells[0][1], off
            if is_const(off) and is_const(n):
                zo, zs, zv = st.wr(nm).zone(cval(off), cval(off) + cval(n))
                return zv, const(cval(off) - zo, 64)
            raise Unsupported('bcmp')
        (a, ao), (b, bo) = content(p), content(q)
        if a is b and ao is bo:
            return const(0, 32)
        x = sorted([(a, ao), (b, bo)], key=lambda t: (t[0].id, t[1].id))
        return ap('bcmp', lambda *z: tm.atomv(mk('uf', 32, ('bcmp',) + z)), x[0][0], x[0][1], x[1][0], x[1][1], n)

    def memset(self, st, d, b, n, gate):
        if is_const(n) and cval(n) == 0:
            return
        d = self.one(d, gate)
        dn, do = self.resolve(d, st)
        w = st.wr(dn)
        if w.kind == 'array':
            w.cells[0] = (1 << 62, m_copy(w.cells[0][1], do, mem('fill', b), const(0, 64), n))
            return
        if not (is_const(do) and is_const(n) and is_const(b)):
            raise Unsupported('symbolic memset')
        do, n, bv = cval(do), cval(n), cval(b)
        z = w.zone_at(do, n)
        if z is not None and (z[0], z[1]) != (do, n):
            w.cells[z[0]] = (z[1], m_copy(z[2], const(do - z[0], 64), mem('fill', b), const(0, 64), const(n, 64)))
            return
        w.carve(do, n)
        if n <= 8:
            w.cells[do] = (n, const(int.from_bytes(bytes([bv]) * n, 'little'), 8 * n))
        else:
            w.cells[do] = (n, mem('fill', b))

    # ---- region
    def region(self, start, phis, env, st, gate=TRUE):
        """evaluate from `start` (function entry or a loop header with its phi values) up to the next
        cut points; returns outcomes: ret (merged), header arrivals (merged per header), panics"""
        cfg = self.cfg
        f = self.f
        inc = {}        # block -> [(gate, pred, state, phis)]
        outs = []
        hdr = {}
        rets = []
        env = dict(env)
        order = [b for b in cfg.rpo if cfg.idx[b] >= cfg.idx[start]]
        for b in order:
            if b == start:
                g, s = gate, st
                if phis:
                    env.update(phis)
            else:
                es = inc.get(b)
                if not es:
                    continue
                g, s = self.join(b, es, env)
            if g is FALSE:
                continue
            s = s.copy()
            dead = False
            for i in f.blocks[b]:
                if i.op == 'phi':
                    continue
                if i.op in ('br', 'switch', 'ret', 'unreachable') or i.op == 'invoke':
                    break
                o = self.ev(i, env, s, g)
                if o is not None:
                    outs.append(o)
                    dead = True
                    break
            if dead:
                continue
            t = f.blocks[b][-1]
            if t.op == 'ret':
                r = self.val(t.a[1], t.a[0], env) if t.a[1] is not None else None
                rets.append((g, s, r))
                continue
            if t.op == 'unreachable':
                outs.append(Out('unreachable', (self.m.where(t.dbg), '', t.dbg), g, None))
                continue
            edges = []
            if t.op == 'br':
                if t.a[0] is None:
                    edges = [(TRUE, t.a[1])]
                else:
                    c = self.val(t.a[0], ('i', 1), env)
                    if c.op == 'undef':
                        raise Unsupported('branch on undef')
                    c = restrict(c, g)
                    edges = [(c, t.a[1]), (bnot(c), t.a[2])]
            elif t.op == 'switch':
                v = self.val(t.a[1], t.a[0], env)
                rest = TRUE
                for cv, lab in t.a[3]:
                    if v.w == 1:
                        c = v if cv[1] else bnot(v)
                    else:
                        c = tm.eq(v, const(cv[1], v.w))
                    edges.append((band(rest, c), lab))
                    rest = band(rest, bnot(c))
                edges.append((rest, t.a[2]))
            else:
                raise Unsupported(t.op)
            for c, lab in edges:
                eg = band(g, c)
                if eg is not g:
                    eg = prune_gate(eg, self.base)
                if eg is FALSE:
                    continue
                if lab in cfg.headers:
                    hdr.setdefault(lab, []).append((eg, b, s, self.phivals(lab, b, env)))
                else:
                    inc.setdefault(lab, []).append((eg, b, s, self.phivals(lab, b, env)))
        for h, es in hdr.items():
            env2 = dict(env)
            g, s = self.join(h, es, env2)
            names = [i.res for i in f.blocks[h] if i.op == 'phi']
            outs.append(Out('header', h, g, s, {n: env2[n] for n in names}, env=env))
        if rets:
            g = FALSE
            for r in rets:
                g = bor(g, r[0])
            items = [(restrict(r[0], g), r[1]) for r in rets]
            s = merge_states(items)
            rv = rets[-1][2]
            if rv is not None and not isinstance(rv, tuple):
                for (c, _), r in zip(reversed(items[:-1]), reversed(rets[:-1])):
                    rv = ite2(c, r[2], rv)
            outs.append(Out('ret', 'ret', g, s, ret=rv, env=env))
        return outs

    def phivals(self, lab, pred, env):
        r = {}
        for i in self.f.blocks[lab]:
            if i.op != 'phi':
                break
            t, incs = i.a
            for v, p in incs:
                if p == pred:
                    r[i.res] = self.val(v, t, env)
                    break
        return r

    def join(self, b, es, env):
        g = FALSE
        # several edges from one predecessor (switch) carry the same values
        for e in es:
            g = bor(g, e[0])
        items = [(restrict(e[0], g), e[2]) for e in es]
        s = merge_states(items) if len(items) > 1 else items[0][1]
        for n in es[0][3]:
            v = es[-1][3][n]
            for (c, _), e in zip(reversed(items[:-1]), reversed(es[:-1])):
                v = ite2(c, e[3][n], v) if not isinstance(v, tuple) else v
            env[n] = v
        return g, s


_cfgs = {}


def cfgof(f):
    c = _cfgs.get(id(f))
    if c is None:
        c = Cfg(f)
        _cfgs[id(f)] = c
    return c


def width(t):
    if t[0] == 'i':
        return t[1]
    if t[0] == 'ptr':
        return 64
    if t[0] == 'double':
        return 64
    raise Unsupported('width %s' % (t,))


def sx(x):
    if x.w == 64:
        return x
    return tm.sext(x, 64)


def tobool(v):
    return ap('tobool', lambda x: tm.boolc(cval(x) & 1) if is_const(x) else bnot(tm.eq(tm.and_(x, const(1, x.w)), const(0, x.w))), v)


def sel(c, x, y):
    if c.op == 'undef':
        return x
    if isinstance(x, tuple) or isinstance(y, tuple):
        raise Unsupported('select of aggregates')
    return ite2(c, x, y)


def icmp(p, x, y):
    if x.w == 1 and y.w == 1:
        if p == 'eq':
            return bnot(tm.bxor(x, y))
        if p == 'ne':
            return tm.bxor(x, y)
        if p == 'ult':
            return band(bnot(x), y)
        if p == 'ugt':
            return band(x, bnot(y))
        if p == 'ule':
            return bor(bnot(x), y)
        if p == 'uge':
            return bor(x, bnot(y))
        raise Unsupported('i1 icmp %s' % p)
    if p == 'eq':
        return tm.eq(x, y)
    if p == 'ne':
        return bnot(tm.eq(x, y))
    if p == 'ult':
        return tm.ult(x, y)
    if p == 'ugt':
        return tm.ult(y, x)
    if p == 'ule':
        return bnot(tm.ult(y, x))
    if p == 'uge':
        return bnot(tm.ult(x, y))
    if p == 'slt':
        return tm.slt(x, y)
    if p == 'sgt':
        return tm.slt(y, x)
    if p == 'sle':
        return bnot(tm.slt(y, x))
    if p == 'sge':
        return bnot(tm.slt(x, y))
    raise Unsupported(p)


def cast(op, x, t, t2):
    w = None
    if op in ('ptrtoint', 'inttoptr', 'bitcast', 'ptrtoaddr'):
        return x
    if op in ('uitofp', 'sitofp'):
        return ap(op, lambda x: mk('fp', 64, (op, x)), x)
    if op in ('fptoui', 'fptosi'):
        w = width(t2)
        return ap((op, w), lambda x: tm.atomv(mk('uf', w, (op, x))), x)
    w = width(t2)
    if op == 'zext':
        if x.w == 1 and x.op != 'undef':
            return ite(x, const(1, w), const(0, w))
        return tm.zext(x, w)
    if op == 'sext':
        if x.w == 1:
            return ite(x, const(M(w), w), const(0, w))
        return tm.sext(x, w)
    if op == 'trunc':
        if w == 1:
            return tobool(x)
        return tm.trunc(x, w)
    raise Unsupported(op)


def mulov(x, y):
    def f(a, b):
        h = tm.rng(a)[1] * tm.rng(b)[1]
        if h <= M(a.w):
            return FALSE
        if is_const(a):
            a, b = b, a
        if is_const(b):
            return tm.ult(const(M(a.w) // cval(b), a.w), a)
        return tm.condv(mk('mulov', 1, tuple(sorted((a, b)))))
    return ap('mulov', f, x, y)


tm.CONDS.add('mulov')


# ------------------------------------------------------------------ running a function to its exits

class Result:
    def __init__(self):
        self.gate = FALSE       # returns normally
        self.state = None
        self.ret = None
        self.panics = []        # Out
        self.events = []
        self.regions = 0
        self.loops = 0


def same_state(a, b):
    if set(a.objs) != set(b.objs):
        return False
    for nm, o in a.objs.items():
        p = b.objs[nm]
        if o is p:
            continue
        if set(o.cells) != set(p.cells):
            return False
        for off, (sz, v) in o.cells.items():
            s2, w = p.cells[off]
            if s2 != sz or not (v is w or isinstance(v, tuple) and v == w):
                return False
    return True


def run(ex, env, st, limit=200, gate=TRUE):
    """evaluate ex from its entry to all exits, peeling loops whose trip count the gates decide"""
    res = Result()
    res.turns = []
    res.diverge = []
    rets = []
    work = [(ex.f.entry, {}, env, st, gate)]
    n = 0
    while work:
        start, phis, e, s, g = work.pop(0)
        n += 1
        if n > limit:
            raise Unsupported('loop at %s is not bounded by its gates' % start)
        res.turns.append((start, g))
        for o in ex.region(start, phis, e, s, g):
            if o.kind == 'header' and o.where == start and same_state(o.state, s) and phis and \
                    all(o.phis[x] is phis[x] or o.phis[x].op == 'undef' for x in phis):
                # nothing has changed: this turn repeats for ever
                res.diverge.append((start, o.gate))
            elif o.kind == 'header':
                # join with a pending arrival at the same header
                env2 = dict(e)
                env2.update(o.env)
                for k, w in enumerate(work):
                    if w[0] == o.where and w[2] is not None and set(w[1]) == set(o.phis):
                        gg = bor(w[4], o.gate)
                        c = restrict(o.gate, gg)
                        ph = {x: ite2(c, o.phis[x], w[1][x]) for x in o.phis}
                        work[k] = (o.where, ph, env2, merge2(c, o.state, w[3]), gg)
                        break
                else:
                    work.append((o.where, o.phis, env2, o.state, o.gate))
                work.sort(key=lambda w: ex.cfg.idx[w[0]])
            elif o.kind == 'ret':
                rets.append(o)
            else:
                res.panics.append(o)
    res.regions = n
    res.copies = ex.copies
    if rets:
        g = FALSE
        for o in rets:
            g = bor(g, o.gate)
        items = [(restrict(o.gate, g), o.state) for o in rets]
        res.state = merge_states(items)
        rv = rets[-1].ret
        if rv is not None and not isinstance(rv, tuple):
            for (c, _), o in zip(reversed(items[:-1]), reversed(rets[:-1])):
                rv = ite2(c, o.ret, rv)
        res.ret = rv
        res.gate = g
    res.events = ex.events
    return res
