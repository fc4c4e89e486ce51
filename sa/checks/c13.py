"""C13: effect analysis - nothing reachable from the public interface touches ambient or global mutable state."""
import re
from .. import mir, irbuild

DENY = [
    (r'\b(?:std|core)::env::', 'environment'),
    (r'\b(?:std|core)::time::', 'clock'),
    (r'\b(?:std|core)::fs::', 'file system'),
    (r'\b(?:std|core)::io::(?!Error)', 'input/output'),
    (r'\b(?:std|core)::thread::', 'threads or thread-local state'),
    (r'\bLocalKey\b|\bthread_local_inner\b', 'thread-local state'),
    (r'\b(?:std|core)::process::(?!abort)', 'process state'),
    (r'\b(?:std|core)::net::', 'network'),
    (r'\b(?:std|core)::os::', 'operating system'),
    (r'\b(?:std|core)::sync::(?!Arc)', 'synchronised shared state'),
    (r'\bAtomic(?:Bool|Ptr|[IU](?:8|16|32|64|128|size)|::<)', 'shared state (atomic)'),
    (r'\bRandomState\b|\bDefaultHasher\b|\bhash_map::|\bHashMap\b|\bHashSet\b|\bhash_set::', 'per-process random hashing'),
    (r'\bstd::random\b|\bRandomSource\b', 'randomness'),
    (r'\b(?:std|core)::backtrace::|\bpanic::Location\b|\bLocation::<.*>::caller\b', 'call-site identity'),
    (r'\b(?:std|core)::any::', 'type identity'),
    (r'\b(?:core|std)::arch::', 'cpu-specific code'),
    (r'::align_offset\b|::expose_provenance\b|>::addr\b|<.*\*(?:const|mut) .*>::addr\b|fmt::Pointer\b', 'memory addresses'),
    (r'\bstd::alloc::(?!Global)', 'raw allocation'),
    (r'\b_print\b|\b_eprint\b', 'printing'),
    (r'is_x86_feature_detected|std_detect', 'cpu detection'),
]
IR_OK = re.compile(r'^@(llvm\.(memcpy|memmove|memset|umin|umax|smin|smax|usub|uadd|umul|sadd|ssub|smul|fsh|ctlz|cttz|ctpop|bswap|assume|expect|'
                   r'experimental\.noalias|lifetime|dbg|abs|bitreverse|log2|floor|ceil|trap|fptoui|fptosi|trunc|round|sqrt|exp|pow|log|minnum|maxnum|'
                   r'vector\.reduce|masked|fmuladd|load\.relative|uadd\.sat|usub\.sat|threadlocal\.never|ubsantrap|is\.fpclass|fabs|rint|nearbyint|'
                   r'scmp|ucmp)|bcmp|memcmp|opaque_push|.*___rust_(de|re)?alloc|.*___rust_alloc_zeroed|.*___rust_no_alloc_shim)')


def check(rep):
    rep.rule = ('effect analysis: (1) in the MIR of the whole library, including generic code, no call, constant or static names an '
                'ambient-state facility, no static is mutable, no pointer is turned into an integer; (2) in the optimised IR of '
                'every analysed instance, all calls go to the allow-listed pure runtime, and every load and store is of '
                'function-local, caller-supplied or constant memory, with no volatile, atomic, thread-local or assembly')
    with mir.Scratch() as sc:
        ok, out, txt = mir.lib(sc, None, rustc=['-Cdebug-assertions=off', '-Coverflow-checks=on'])
    if not ok:
        raise Exception('the library does not build: %s' % (mir.first_error(out),))
    it = mir.items(txt)
    nfn = ncall = 0
    for h, body in it.items():
        short = h.split('(')[0][:110] if h.startswith('fn') else h.split(':')[0][:80]
        m = re.search(r'src/[a-z_0-9]+\.rs:\d+', h)
        where = (m.group(0) + ' ' if m else '') + short
        if h.startswith('static'):
            rep.count(statics=1)
            ty = h.split(':', 1)[1]
            bad = None
            if h.startswith('static mut'):
                bad = 'mutable static'
            for rx, what in DENY + [(r'\bcell::|\bCell\b|\bOnce|\bLazy|\bMutex|\bRwLock', 'interior mutability')]:
                if re.search(rx, ty):
                    bad = 'static with ' + what
            if bad:
                rep.violation(short, '%s: %s' % (bad, h[:200]), where)
            else:
                rep.held(short, 'immutable static')
            continue
        if not h.startswith('fn'):
            hit = [(what, ln) for ln in body.split('\n') for rx, what in DENY if re.search(rx, ln)]
            if hit:
                rep.violation(short, '%s: %s' % (hit[0][0], hit[0][1].strip()[:200]), where)
            continue
        nfn += 1
        isdbg = re.search(r'::fmt\(_1: .*fmt::Formatter', h) is not None
        bad = []
        for ln in body.split('\n')[1:]:
            s = ln.strip()
            if s.startswith('debug ') or s.startswith('//') or s.startswith('scope'):
                continue
            if ' -> [' in s or '-> bb' in s:
                ncall += 1
            for rx, what in DENY:
                if re.search(rx, s):
                    bad.append((what, s))
            if 'PointerExposeProvenance' in s or 'PointerWithExposedProvenance' in s or re.search(r'as usize \(Transmute\)|as u64 \(Transmute\)', s):
                bad.append(('memory address used as a number', s))
            if re.search(r'\{alloc\d+: \*mut', s) or 'thread_local_ref' in s or 'ThreadLocalRef' in s:
                bad.append(('mutable global', s))
        ident = identity(body)
        bad += [('the order of memory addresses', s) for k, s in ident if k == 'order']
        if ident and not bad:
            # an address may be compared as a short cut for comparing what it points to
            rep.undecided(short, 'the identity of memory is observed: `%s`' % ident[0][1][:200], where)
            continue
        if bad and not (isdbg and all(b[0] == 'memory addresses' for b in bad)):
            rep.violation(short, '%s: `%s`' % (bad[0][0], bad[0][1][:220]), where, key=short.replace(' ', '_'))
        else:
            rep.held(short)
    rep.count(functions=nfn, calls=ncall)
    # instances
    m = irbuild.module()
    roots = 0
    for name, f in m.fns.items():
        roots += 1
        bad = []
        for b, ins in f.blocks.items():
            for i in ins:
                w = m.where(i.dbg)
                if i.op in ('call', 'invoke'):
                    c = i.a[1]
                    if not isinstance(c, str):
                        continue
                    if c in m.fns or IR_OK.match(c) or ispanic(c):
                        continue
                    root = re.search(r'NtCs[0-9A-Za-z]+_(4core|5alloc)', c)
                    if c.startswith('@_R') and root:
                        continue        # pure library code; its ambient parts are ruled out by name in (1)
                    bad.append((w, 'call of ' + c))
                elif i.op in ('load', 'store'):
                    g = globptr(i.a[1] if i.op == 'load' else i.a[2])
                    if g is not None:
                        ty, init, isc = m.globals.get(g, (None, None, False))
                        if not isc:
                            bad.append((w, '%s of mutable global %s' % (i.op, g)))
                elif i.op in ('atomicrmw', 'cmpxchg', 'fence'):
                    bad.append((w, i.op))
        if bad:
            for w, what in bad[:2]:
                rep.violation('instance ' + name.lstrip('@'), what, w, key='ir:' + name.lstrip('@'))
        else:
            rep.held('instance ' + name.lstrip('@'))
    for pat, what in ((r'\bload (?:atomic|volatile)\b|\bstore (?:atomic|volatile)\b|\batomicrmw\b|\bcmpxchg\b|\bfence\b', 'atomic or volatile access'),
                      (r'\basm (?:sideeffect )?"', 'inline assembly'), (r'thread_local', 'thread-local variable'),
                      (r'call .*@llvm\.(?:readcyclecounter|threadlocal|returnaddress|frameaddress|stacksave)', 'ambient intrinsic')):
        hits = [l for l in m.text.split('\n') if re.search(pat, l) and not l.startswith(('!', 'attributes', 'source_filename', ';'))]
        if hits:
            rep.violation('module: no ' + what, hits[0].strip()[:200], 'optimised IR', key='ir:' + what.replace(' ', '_'))
        else:
            rep.held('module: no ' + what)
    muts = [l for l in m.text.split('\n') if re.match(r'^@\S+ = .*\bglobal\b', l) and 'constant' not in l.split('global')[0] and 'opaque' not in l]
    muts = [l for l in muts if 'external' not in l]
    if muts:
        rep.violation('module: no mutable global', muts[0][:200], 'optimised IR', key='ir:global')
    else:
        rep.held('module: no mutable global')
    rep.count(instances=roots)


CMP = re.compile(r'= (Lt|Le|Gt|Ge|Cmp|Eq|Ne)\((?:copy|move) (_\d+), (?:copy|move) (_\d+)\)')
ORDCALL = re.compile(r'<\*(?:const|mut) [^>]*> as (?:std::cmp::|core::cmp::)?(?:PartialOrd|Ord|Hash|std::hash::Hash)|::offset_from\b|::byte_offset_from\b|<\*(?:const|mut) .*>::cmp\b')
EQCALL = re.compile(r'\bptr::(?:eq|addr_eq|fn_addr_eq)\b|<\*(?:const|mut) .* as (?:std::cmp::|core::cmp::)?PartialEq|::guaranteed_(?:eq|ne)\b')


def identity(body):
    """[(kind, line)]: the relative order or the identity of addresses is observed"""
    ty = dict(re.findall(r'\blet (?:mut )?(_\d+): ([^;]+);', body))
    raw = lambda l: re.match(r'\*(?:const|mut) ', ty.get(l, '')) is not None
    out = []
    for ln in body.split('\n'):
        s = ln.strip()
        if s.startswith(('debug ', '//', 'scope', 'let ')):
            continue
        c = CMP.search(s)
        if c and raw(c.group(2)) and raw(c.group(3)):
            out.append(('order' if c.group(1) not in ('Eq', 'Ne') else 'identity', s))
        elif ORDCALL.search(s):
            out.append(('order', s))
        elif EQCALL.search(s):
            out.append(('identity', s))
    return out


def ispanic(c):
    from ..interp import is_panic
    return is_panic(c)


def globptr(v):
    while v[0] == 'cgep':
        v = v[2]
    return v[1] if v[0] == 'glob' else None
