"""Build the roots crate against /repo's working tree and read its LLVM IR.  Nothing is executed."""
import os
import re
import shutil
import subprocess
import tempfile
import glob
from . import llir

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('SA_REPO', '/repo')
FLAGS = ('-Zcross-crate-inline-threshold=always -Copt-level=3 -Cno-prepopulate-passes -Cno-vectorize-loops '
         '-Cno-vectorize-slp -Coverflow-checks=on')
PASSES = ('forceattrs,cgscc(inline),function(sroa<modify-cfg>,early-cse<memssa>,instcombine<no-verify-fixpoint>,'
          'simplifycfg,gvn,instcombine<no-verify-fixpoint>,simplifycfg),globaldce')


class BuildError(Exception):
    pass


def run(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if r.returncode:
        raise BuildError('%s\n%s' % (' '.join(cmd), r.stdout[-6000:]))
    return r.stdout


def env(extra=None):
    e = dict(os.environ)
    for k in list(e):
        if k.startswith('CARGO_') and k not in ('CARGO_HOME',) or k in ('RUSTFLAGS', 'RUSTC_WRAPPER'):
            del e[k]
    if extra:
        e.update(extra)
    return e


_sys = None


def sysroot():
    global _sys
    if _sys is None:
        _sys = run(['rustc', '+nightly', '--print', 'sysroot']).strip()
    return _sys


def crate(tmp, features=None):
    """a scratch copy of the roots crate (its lock file and build output must not land in /verif)"""
    d = os.path.join(tmp, 'roots')
    shutil.copytree(os.path.join(VERIF, 'roots'), d, ignore=shutil.ignore_patterns('target', 'Cargo.lock'))
    p = os.path.join(d, 'Cargo.toml')
    s = open(p).read().replace('path = "/repo"', 'path = "%s"' % REPO)
    if features is not None:
        s = s.replace('path = "%s" }' % REPO, 'path = "%s", default-features = false, features = [%s] }'
                      % (REPO, ', '.join('"%s"' % f for f in features)))
    open(p, 'w').write(s)
    return d


def build(passes=PASSES, raw=False):
    tmp = tempfile.mkdtemp(prefix='sa-ir-')
    try:
        d = crate(tmp)
        run(['cargo', '+nightly', 'rustc', '--release', '--offline', '--quiet', '--', '--emit=llvm-ir'], cwd=d,
            env=env({'RUSTFLAGS': FLAGS + ' --emit=llvm-ir', 'CARGO_TARGET_DIR': os.path.join(tmp, 't')}))
        lls = [x for x in glob.glob(os.path.join(tmp, 't', '**', 'roots*.ll'), recursive=True)]
        if len(lls) != 1:
            raise BuildError('expected one IR file, found %s' % lls)
        if raw:
            return open(lls[0]).read()
        opt = os.path.join(sysroot(), 'lib/rustlib/x86_64-unknown-linux-gnu/bin/opt')
        out = os.path.join(tmp, 'o.ll')
        run([opt, '-S', '-force-remove-attribute=noinline', '-inline-threshold=100000', '-passes=' + passes, lls[0],
             '-o', out])
        return externals(open(out).read(), glob.glob(os.path.join(tmp, 't', '**', 'hash_roll*.ll'), recursive=True))
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def externals(text, libs):
    """give constants of the library that the roots only declare their definition"""
    defs = {}
    for p in libs:
        for line in open(p):
            if line.startswith('@') and ' = ' in line:
                defs[line.split(' = ', 1)[0]] = line
    out = []
    for line in text.splitlines(True):
        if line.startswith('@') and ' = external ' in line:
            d = defs.get(line.split(' = ', 1)[0])
            if d and ' external ' not in d:
                line = re.sub(r', (!dbg|comdat).*$', '', d.rstrip('\n')) + '\n'
        out.append(line)
    return ''.join(out)


def module(passes=PASSES):
    text = build(passes)
    m = llir.parse(text)
    m.text = text
    return m
