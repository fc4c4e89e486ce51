"""The published recurrences, transcribed independently of the repository's code."""
from . import terms as tm, machine as M
from .terms import const, var, ite, band, bor, bnot, TRUE, FALSE, mk
from .interp import mem
from .machine import n_, N_, b_, lag, C
from .model import Model

K32 = lambda v: const(v, 32)
K64 = lambda v: const(v, 64)


def acc(m, key, w, init):
    v = var('spec.' + key, w)
    m.accs[key] = (w, init, v)
    return v


def rd(name, off, w):
    return tm.ap(('rdn', name, w), lambda o: tm.atomv(mk('rd', w, (name, o))), off)


def tbl(name, off, w):
    return tm.ap(('tbln', name, w), lambda o: tm.atomv(mk('tbl', w, (name, o))), off)


def spec(c, kind):
    m = Model('published ' + c.name, '')
    globals()['s_' + c.alg](m, c, kind)
    m.base = list(c.base)
    m.cfgargs, m.cfgbase = [a for a in c.args if a.op == 'poly'], list(c.base)
    m.ghosts = []
    m.kind = kind
    return m


def finish(m, D, posts, inits=None):
    """state starts afresh after a split"""
    m.D = D
    for k, v in posts.items():
        m.post[k] = ite(D, m.accs[k][1], v)


# bup / librsync rollsum: s1 += new - old; s2 += s1 - window*(old + 31); split when the low 13 bits of s2 are ones
def s_bup(m, c, kind):
    w = tm.trunc(c.args[0], 32)
    s1 = acc(m, 's1', 32, tm.mul(w, K32(31)))
    s2 = acc(m, 's2', 32, tm.mul(tm.mul(w, tm.sub(w, K32(1))), K32(31)))
    old = ite(tm.ult(n_, c.args[0]), const(0, 8), lag(c.args[0]))
    old = tm.zext(old, 32)
    t1 = tm.sub(tm.add(s1, tm.zext(b_, 32)), old)
    t2 = tm.sub(tm.add(s2, t1), tm.mul(w, tm.add(old, K32(31))))
    low = tm.and_(t2, K32(8191))
    m.roll = {'s1': t1, 's2': t2}
    finish(m, tm.eq(low, K32(8191)), {'s1': t1, 's2': t2})


# gzip --rsyncable: running sum of the window, split when divisible by the modulus
def s_gzip(m, c, kind):
    w, mod = c.args
    s = acc(m, 'sum', 64, K64(0))
    t = tm.add(s, tm.zext(b_, 64))
    t = ite(tm.ult(n_, w), t, tm.sub(t, tm.zext(lag(w), 64)))
    finish(m, tm.eq(tm.urem(t, mod), K64(0)), {'sum': t})


# cyclic polynomial: h = rotl(h,1) ^ rotl(T(old), k) ^ T(new); split when all mask bits are ones, or above the maximum
def buz(m, c, h, k, mask, mx):
    H = acc(m, 'h', 32, K32(0))
    t = tm.xor_(tm.rotl(H, K32(1)), h(b_))
    kk = tm.and_(tm.trunc(k, 32), K32(31))
    t = ite(tm.ult(n_, k), t, tm.xor_(t, tm.rotl(h(lag(k)), kk)))
    hit = tm.eq(tm.and_(t, mask), mask)
    over = tm.ult(mx, tm.add(n_, C(1)))
    finish(m, bor(hit, over), {'h': t})


def s_buzt(m, c, kind):
    t, k, mask, mx = c.args
    buz(m, c, lambda b: rd('table', tm.mul(C(4), tm.zext(b, 64)), 32), k, mask, mx)


s_buzb = s_buzt


def s_buzs(m, c, kind):
    t, salt, k, mask, mx = c.args
    buz(m, c, lambda b: rd('table', tm.mul(C(4), tm.zext(tm.xor_(b, salt), 64)), 32), k, mask, mx)


# Gear: fp = (fp << 1) + G[b]; split when the top bits are zero
def s_gear(m, c, kind):
    l = tm.trunc(c.args[0], 32)
    fp = acc(m, 'fp', 32, K32(0))
    t = tm.add(tm.shl(fp, K32(1)), tbl('GEAR_32', tm.mul(C(4), tm.zext(b_, 64)), 32))
    ones = tm.sub(tm.shl(K32(1), l), K32(1))
    mask = tm.shl(ones, tm.and_(tm.sub(K32(0), l), K32(31)))
    finish(m, tm.eq(tm.and_(t, mask), K32(0)), {'fp': t})


# FastCDC: skip to the minimum; harder mask up to the normal size, easier one up to the maximum
def s_fastcdc(m, c, kind):
    tb, mi, no, ma = c.args
    fp = acc(m, 'fp', 64, K64(0))
    t = tm.add(tm.shl(fp, K64(1)), rd('table', tm.mul(C(8), tm.zext(b_, 64)), 64))
    mask = ite(tm.ult(n_, no), K64(0x0003590703530000), K64(0x0000d90003530000))
    hit = ite(tm.ult(n_, no), tm.eq(tm.and_(t, K64(0x0003590703530000)), K64(0)),
              tm.eq(tm.and_(t, K64(0x0000d90003530000)), K64(0)))
    skip = tm.ult(n_, mi)
    at = bnot(tm.ult(n_, ma))                   # already at the maximum
    full = bnot(tm.ult(tm.add(n_, C(1)), ma))   # at the maximum with this byte
    D = ite(at, TRUE, ite(skip, FALSE, bor(hit, full)))
    # the incremental interface places a match before the matched byte, the search after it
    m.after = ite(at, FALSE, ite(hit, TRUE if kind == 'fce' else FALSE, TRUE))
    finish(m, D, {'fp': ite(skip, fp, t)})


# MII: w increases in a row
def s_mii(m, c, kind):
    w = c.args[0]
    prev = acc(m, 'prev', 8, const(255, 8))
    inc = acc(m, 'inc', 64, K64(0))
    up = tm.ult(prev, b_)
    t = tm.add(inc, C(1))
    D = band(up, tm.eq(t, w))
    m.base_extra = [M.lit(tm.ult(inc, w))]
    finish(m, D, {'prev': b_, 'inc': ite(up, t, C(0))})


# pigz --rsyncable: h = ((h << 1) ^ b) & mask; split when h == mask >> 1
def s_pigz(m, c, kind):
    bits = tm.zext(c.args[0], 32)
    mask = tm.sub(tm.shl(K32(1), bits), K32(1))
    hit = tm.lshr(mask, K32(1))
    h = acc(m, 'hash', 32, hit)
    t = tm.and_(tm.xor_(tm.shl(h, K32(1)), tm.zext(b_, 32)), mask)
    finish(m, tm.eq(t, hit), {'hash': t})


# RAM: split at a byte at least as large as every byte before it, beyond the window
def s_ram(m, c, kind):
    w = c.args[0]
    mx = acc(m, 'max', 8, const(0, 8))
    ge = bnot(tm.ult(b_, mx))
    D = band(ge, tm.ult(w, n_))
    finish(m, D, {'max': ite(ge, b_, mx)})


# zpaq: order-1 prediction; h = (h + b + 1) * (predicted ? 314159265 : 271828182)
def s_zpaq(m, c, kind):
    avg, lt, lo, ht, hi = c.args
    h = acc(m, 'hash', 32, K32(0))
    last = acc(m, 'last', 8, const(0, 8))
    pred = rd('o1', tm.zext(last, 64), 8)
    s = tm.add(tm.add(h, tm.zext(b_, 32)), K32(1))
    t = ite(tm.eq(b_, pred), tm.mul(s, K32(314159265)), tm.mul(s, K32(271828182)))
    idx = tm.add(n_, C(1))
    k1, k2 = tm.cval(lt), tm.cval(ht)
    under = [tm.ult(idx, lo), tm.ule(idx, lo), FALSE][k1]
    over = [tm.ult(hi, idx), tm.ule(hi, idx), FALSE][k2]
    maxhash = tm.shl(K32(1), tm.sub(K32(32), tm.zext(avg, 32)))
    D = bor(band(tm.ult(t, maxhash), bnot(under)), over)
    finish(m, D, {'hash': t, 'last': b_})
    m.arrs['o1'] = (mem('fill', const(0, 8)),
                    ite(D, mem('fill', const(0, 8)),
                        tm.ap(('mst', 1), lambda a, o, v: mem('st', a, o, 1, v), mem('init', 'o1'), tm.zext(last, 64), b_)))


# zstd: h = h*p + b + 10 over 32 bytes, dropping (old + 10) * p^31; kept across splits
P8 = 0xCF1BBCDCB7A56463


def s_zstd(m, c, kind):
    t = c.args[0]
    mb = tm.trunc(tm.lshr(t, C(20)), 32)
    h0 = K64(0)
    for i in range(32):
        h0 = tm.add(tm.mul(h0, K64(P8)), tm.add(tm.zext(var('p%d' % (i + 1), 8), 64), K64(10)))
    h = acc(m, 'hash', 64, h0)
    x = tm.sub(h, tm.mul(tm.add(tm.zext(lag(32), 64), K64(10)), K64(pow(P8, 31, 1 << 64))))
    x = tm.add(tm.mul(x, K64(P8)), tm.add(tm.zext(b_, 64), K64(10)))
    clz = tm.ap('ctlz', lambda p: tm.atomv(mk('ctlz', 32, (p,))), mb)
    bits = tm.add(tm.xor_(clz, K32(31)), K32(20))
    mask = tm.sub(tm.shl(K64(1), tm.and_(tm.zext(bits, 64), K64(63))), K64(1))
    m.D = tm.eq(tm.and_(x, mask), mask)
    m.post['hash'] = x
