"""The extracted machines of every algorithm, shared by the checks of one run."""
from . import machine as M, model, spec, tables, terms as tm
from .interp import Unsupported

_c = {}


class Item:
    pass


def started(c, kind, result, name):
    """the machine of a chunker whose initial value is given"""
    return get(c, kind, result, name)


def get(c, kind, result=None, name=''):
    key = (c.name, kind, name)
    if key not in _c:
        it = Item()
        it.c, it.kind, it.err, it.grown = c, kind, None, False
        it.name = '%s %s' % (M.TITLE.get(c.alg, c.alg) + c.name[len(c.alg):], 'push' if kind == 'push' else 'find_chunk_edge')
        it.mc = it.R = it.A = None
        tables.register()
        old = tm.budget(150)
        try:
            it.mc = M.Machine(c, kind, result)
            it.where = it.mc.where
            it.R = M.resolve(it.mc)
            it.A = model.from_code(it.mc, it.R)
            it.S = spec.spec(getattr(c, 'doc', None) or c, kind)
            if it.R.step.grow:
                it.grown = True
                it.err = 'a buffer may grow at %s, which the transition on one byte does not cover' % (it.R.step.grow[0][1],)
        except (Unsupported, tm.TooLong) as e:
            it.err = str(e)
            it.where = it.mc.where if it.mc else c.alg
        except (AttributeError, KeyError, IndexError, TypeError, AssertionError, ValueError) as e:
            it.err = 'analysis stopped: %s %s' % (type(e).__name__, e)
            it.where = it.mc.where if it.mc else c.alg
        finally:
            tm.restore(old)
        _c[key] = it
    return _c[key]


def configs(alg):
    if alg not in _c:
        _c[alg] = M.configs(alg)
    return _c[alg]


def every(kinds=('push', 'fce'), algs=None):
    for a in algs or M.ALGS:
        for c in configs(a):
            for k in kinds:
                yield get(c, k)
