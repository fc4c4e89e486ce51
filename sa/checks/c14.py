"""C14: compile-time witnesses that configurations are immutable and everything can be sent and shared."""
import os
import re
import shutil
import subprocess
import tempfile
from .. import irbuild
from ..irbuild import VERIF, REPO, env


def build(d, tmp, feats):
    r = subprocess.run(['cargo', '+nightly', 'rustc', '--lib', '--offline', '--quiet'] + feats + ['--', '--emit=metadata', '-Awarnings'],
                       cwd=d, env=env({'CARGO_TARGET_DIR': os.path.join(tmp, 't')}), stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, text=True)
    return r.returncode, r.stdout


def check(rep):
    rep.rule = ('the type checker decides: auto traits Send, Sync, NoCell (no UnsafeCell reachable, through pointers too), NoRaw, '
                "'static for every configuration, chunker and search state; searching and deriving by shared reference from "
                'several threads; method signatures take &self. Negative controls must be rejected')
    tmp = tempfile.mkdtemp(prefix='sa-wit-')
    try:
        d = os.path.join(tmp, 'witness')
        shutil.copytree(os.path.join(VERIF, 'witness'), d, ignore=shutil.ignore_patterns('target', 'Cargo.lock'))
        p = os.path.join(d, 'Cargo.toml')
        s = open(p).read().replace('path = "/repo"', 'path = "%s"' % REPO)
        open(p, 'w').write(s)
        src = open(os.path.join(d, 'src/lib.rs')).read().split('\n')
        rc, out = build(d, tmp, ['--features', 'neg'])
        neg = [i + 1 for i, l in enumerate(src) if l.endswith('// N')]
        hit = set(int(x) for x in re.findall(r'--> src/lib\.rs:(\d+):', out))
        if 'could not compile `hash-roll`' in out:
            raise Exception('the library does not build: ' + out[-1500:])
        miss = [n for n in neg if n not in hit]
        if miss:
            raise Exception('negative controls not rejected: %s\n%s' % (miss, out[-2000:]))
        rep.held('negative controls', '%d unsound witnesses rejected by the type checker' % len(neg))
        rc, out = build(d, tmp, [])
        errs = {}
        for blk in re.split(r'\n(?=error)', '\n' + out):
            m = re.search(r'--> src/lib\.rs:(\d+):', blk)
            if m and blk.lstrip().startswith('error'):
                errs.setdefault(int(m.group(1)), blk.strip())
        other = rc != 0 and not errs
        if other:
            raise Exception('the library or the witnesses do not build: ' + out[-2000:])
        used = set()
        for i, l in enumerate(src):
            m = re.search(r'// W (.*)$', l)
            if not m:
                continue
            e = errs.get(i + 1)
            if e:
                used.add(i + 1)
                w = [x for x in re.findall(r'--> (?:.*?/)?(src/[a-z_0-9]+\.rs:\d+)', e) if not x.startswith('src/lib.rs:%d' % (i + 1))]
                if re.search(r'E0(432|433|412|425|107|574)', e.split('\n')[0]):
                    raise Exception('the witness names something that no longer exists: ' + e[:600])
                rep.violation(m.group(1), ' '.join(e.split())[:900], w[0] if w else 'type of witness ' + m.group(1), key=m.group(1).replace(' ', ':'))
            else:
                rep.held(m.group(1))
        if set(errs) - used:
            raise Exception('unexpected witness errors: %s' % errs[list(set(errs) - used)[0]][:1500])
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
