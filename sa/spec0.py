"""small helpers shared by the acyclic value-graph checks"""
from . import terms as tm, interp as ip, theory as th, irbuild
from .terms import const, var, ite, band, bor, bnot, TRUE, FALSE
from .interp import State, Obj, Exec, Globals, ptr, mem, run, paths, Unsupported

_m = None
_g = None


def module():
    global _m, _g
    if _m is None:
        _m = irbuild.module()
        _g = Globals(_m)
    return _m, _g


BIG = (1 << 62) - 1


def call(name, args, st=None, base=(), tag='', limit=200):
    """value graph of one function; args: list of V"""
    m, g = module()
    e = Exec(m, g, name, base, tag)
    ps = [p[0] for p in e.f.params]
    if len(ps) != len(args):
        raise Unsupported('%s takes %d parameters, expected %d' % (name, len(ps), len(args)))
    st = st or State()
    r = run(e, dict(zip(ps, args)), st, limit)
    r.exec = e
    gr = [p for p in r.panics if p.kind == 'grow']
    if gr:
        if any(not th.infeasible(list(base) + ls) for p in gr for ls in paths(p.gate)):
            raise Unsupported('a buffer may grow at %s' % (gr[0].where[0],))
        r.panics = [p for p in r.panics if p.kind != 'grow']
    return r


def outobj(st, name):
    st.objs[name] = Obj(name, 'undef')
    return ptr(name)


def symobj(st, name):
    st.objs[name] = Obj(name, 'sym')
    return ptr(name)


def where(m, f):
    """source position of a function: its first located instruction"""
    for b, ins in f.blocks.items():
        for i in ins:
            if i.dbg is not None:
                w = m.where(i.dbg)
                if w.startswith('src/') and 'roots' not in w:
                    return w
    return f.name if hasattr(f, 'name') else ''


def resolved(v, allowed):
    """every atom of v is a variable in allowed (by name) or built from them"""
    for a in tm.atoms_of(v):
        if a.op == 'var' and a.args[0] not in allowed:
            return False
        if a.op in ('rd', 'tbl') and not (a.args[0] in allowed or allowed is True):
            return False
    return True


def witness(lits):
    return ' and '.join(('' if p else 'not ') + tm.show(c) for c, p in lits) or 'always'
