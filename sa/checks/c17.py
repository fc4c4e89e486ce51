"""C17: every feature selection compiles; an algorithm's MIR is the same under every selection that has it."""
import re
from .. import mir


def owner(h):
    m = re.match(r'(?:fn|const|static|static mut) (?:<impl at )?(?:src/)?([a-z_0-9]+)(?:::|\.rs)', h)
    return m.group(1) if m else None


def check(rep):
    rep.rule = ('compile the library for none, each single, all-but-one and all algorithm features; compare the MIR of every '
                'item with the MIR of the same item under the full selection')
    feats = mir.features()
    if not feats:
        raise Exception('no features found')
    sels = [('none', [])] + [('only ' + f, [f]) for f in feats] + \
           [('all but ' + f, [g for g in feats if g != f]) for f in feats] + [('all', list(feats))]
    if rep.tier == 'thorough':
        import itertools
        sels += [('%s+%s' % p, list(p)) for p in itertools.combinations(feats, 2)]
    with mir.Scratch() as sc:
        # dependencies first decides a toolchain problem from a defect
        res = mir.pmap(lambda s: mir.lib(sc, s[1], tag=re.sub(r'\W', '_', s[0])), sels)
        dflt = mir.lib(sc, None, tag='default')
        rel = [s for s in sels if s[0].startswith('only') or s[0] == 'none'] if rep.tier == 'thorough' else []
        relr = mir.pmap(lambda s: mir.lib(sc, s[1], tag='r' + re.sub(r'\W', '_', s[0]), mir=False, release=True,
                                          toolchain='+stable'), rel)
    allok = dict((s[0], r) for s, r in zip(sels, res))
    if not allok['all'][0] and not dflt[0]:
        e, w = mir.first_error(allok['all'][1])
        raise Exception('the library does not build at all: %s %s' % (e, w))
    for s, (ok, out, _) in list(zip(sels, res)) + [(('default', None), dflt)] + [(('release ' + s[0], s[1]), r) for s, r in zip(rel, relr)]:
        if ok:
            rep.held('builds: ' + s[0])
        else:
            e, w = mir.first_error(out)
            rep.violation('builds: ' + s[0], e, w, key='build:' + s[0])
    base = allok['all'][2] and mir.items(allok['all'][2])
    if base is None:
        return
    rep.count(items_full=len(base))
    if dflt[2] is not None:
        d = mir.items(dflt[2])
        diff = [k for k in set(d) | set(base) if d.get(k) != base.get(k)]
        if diff:
            rep.violation('default equals all features', 'items differ: %s' % sorted(diff)[:4], 'Cargo.toml [features] default', key='default')
        else:
            rep.held('default equals all features')
    n = 0
    for s, (ok, out, txt) in zip(sels, res):
        if txt is None or s[0] == 'all':
            continue
        it = mir.items(txt)
        bad = []
        for k, v in it.items():
            n += 1
            if k not in base:
                bad.append('only under this selection: ' + k)
            elif base[k] != v:
                bad.append('code differs: ' + k)
        for k in base:
            o = owner(k)
            if o in s[1] and k not in it:
                bad.append('missing under this selection: ' + k)
        # the public surface of selected algorithms
        for f in s[1]:
            if not any(owner(k) == f for k in it):
                bad.append('feature %s selects no code' % f)
        # the selection must not carry code of algorithms that were not selected
        if bad:
            m = re.search(r'src/[a-z_0-9]+\.rs:\d+', bad[0])
            rep.violation('same code: ' + s[0], '; '.join(bad[:3]), m.group(0) if m else bad[0][:120], key='code:' + s[0])
        else:
            rep.held('same code: ' + s[0], '%d MIR items identical to the full selection' % len(it))
    rep.count(mir_items_compared=n, selections=len(sels))
