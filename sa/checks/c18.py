"""C18: safe Rust only, under every feature selection and cfg."""
import os
import re
from .. import mir
from ..rlex import tokens


def check(rep):
    rep.rule = ('the library must build with -F unsafe_code under every feature selection (debug and release cfg), and no source '
                'file of the library may contain an `unsafe` token, foreign block, inline assembly, linkage attribute or '
                'override of the unsafe_code lint, whatever cfg guards it')
    src = os.path.join(mir.REPO, 'src')
    n = 0
    for root, _, files in os.walk(src):
        for fn in sorted(files):
            if not fn.endswith('.rs'):
                continue
            n += 1
            p = os.path.join(root, fn)
            rel = os.path.relpath(p, mir.REPO)
            ts = tokens(open(p).read())
            rep.count(tokens=len(ts))
            bad = []
            for i, (t, line) in enumerate(ts):
                nx = [x for x, _ in ts[i + 1:i + 4]]
                pv = [x for x, _ in ts[max(0, i - 3):i]]
                if t == 'unsafe':
                    bad.append((line, '`unsafe` token'))
                elif t == 'extern' and nx[:1] != ['crate'] and pv[-1:] != ['\'']:
                    bad.append((line, 'foreign item or ABI (`extern`)'))
                elif t in ('asm', 'global_asm', 'naked_asm') and nx[:1] == ['!']:
                    bad.append((line, 'inline assembly'))
                elif t in ('no_mangle', 'export_name', 'link_section', 'link', 'ffi_const', 'ffi_pure') and \
                        (pv[-2:] == ['#', '['] or pv[-1:] == ['[']):
                    bad.append((line, 'linkage attribute `%s`' % t))
                elif t == 'unsafe_code' and any(x in ('allow', 'warn', 'expect') for x in [y for y, _ in ts[max(0, i - 6):i]]):
                    bad.append((line, 'override of the unsafe_code lint'))
                elif t in ('include', 'include_str') and nx[:1] == ['!'] and t == 'include':
                    bad.append((line, '`include!` of code outside the analysed sources'))
            if bad:
                for line, what in bad[:3]:
                    rep.violation('source ' + rel, what, '%s:%d' % (rel, line), key='src:%s:%s' % (rel, what))
            else:
                rep.held('source ' + rel, '%d tokens' % len(ts))
    if not n:
        raise Exception('no sources')
    feats = mir.features()
    sels = [('none', []), ('all', feats)] + [('only ' + f, [f]) for f in feats]
    if rep.tier == 'thorough':
        sels += [('all but ' + f, [g for g in feats if g != f]) for f in feats]
    with mir.Scratch() as sc:
        jobs = [(s, rel) for s in sels for rel in ((False, True) if s[0] == 'all' or rep.tier == 'thorough' else (False,))]
        f = lambda j: mir.lib(sc, j[0][1], rustc=['-Funsafe_code'], tag=re.sub(r'\W', '_', j[0][0]) + str(j[1]), mir=False, release=j[1])
        res = mir.pmap(f, jobs)
        plain = mir.lib(sc, feats, tag='plain', mir=False)
    if not plain[0]:
        raise Exception('the library does not build: %s' % (mir.first_error(plain[1]),))
    for (s, rel), (ok, out, _) in zip(jobs, res):
        name = '-F unsafe_code: %s%s' % (s[0], ' (release)' if rel else '')
        if ok:
            rep.held(name)
            continue
        e, w = mir.first_error(out)
        if 'unsafe' in out or 'E0453' in out:
            rep.violation(name, e, w, key='lint:' + s[0])
        else:
            rep.undecided(name, 'does not build for another reason (see C17): ' + e, w)
