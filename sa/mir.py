"""Build /repo's library (never run) and read its MIR; scratch copies and output live under a temp dir."""
import os
import re
import glob
import shutil
import subprocess
import tempfile
from concurrent.futures import ThreadPoolExecutor
from .irbuild import REPO, env, BuildError


def copy_repo(tmp):
    d = os.path.join(tmp, 'repo')
    shutil.copytree(REPO, d, ignore=shutil.ignore_patterns('target', '.git'))
    return d


class Scratch:
    def __enter__(self):
        self.tmp = tempfile.mkdtemp(prefix='sa-mir-')
        self.repo = copy_repo(self.tmp)
        return self

    def __exit__(self, *a):
        shutil.rmtree(self.tmp, ignore_errors=True)


FLAGS = ['--emit=mir,metadata', '-Zmir-include-spans=off', '-Ztrim-diagnostic-paths=no', '-Awarnings']


def lib(scratch, features, rustc=(), toolchain='+nightly', tag=None, mir=True, release=False):
    """compile the library; returns (ok, output, mir text or None)"""
    t = os.path.join(scratch.tmp, 't-' + (tag or 'all'))
    cmd = ['cargo', toolchain, 'rustc', '--offline', '--quiet', '--lib']
    if release:
        cmd.append('--release')
    if features is not None:
        cmd += ['--no-default-features']
        if features:
            cmd += ['--features', ','.join(features)]
    cmd += ['--'] + (FLAGS if mir else ['--emit=metadata', '-Awarnings']) + list(rustc)
    r = subprocess.run(cmd, cwd=scratch.repo, env=env({'CARGO_TARGET_DIR': t, 'RUSTFLAGS': ''}), stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, text=True)
    txt = None
    if r.returncode == 0 and mir:
        fs = [f for f in glob.glob(os.path.join(t, '**', 'hash_roll*.mir'), recursive=True)]
        if len(fs) != 1:
            raise BuildError('expected one MIR file: %s' % fs)
        txt = open(fs[0]).read()
    shutil.rmtree(t, ignore_errors=True)
    return r.returncode == 0, r.stdout, txt


def items(txt):
    """MIR items by header line"""
    out = {}
    cur = None
    for line in txt.split('\n'):
        if line.startswith('//'):
            continue
        if re.match(r'(fn|const|static|static mut|alloc\d+|promoted\[|thread_local) ?', line) or re.match(r'^[a-z<].*\{\{?constant', line):
            cur = line
            out[cur] = []
        if cur is not None:
            out[cur].append(line)
    res = {}
    for k, v in out.items():
        if k.startswith('alloc'):
            continue
        s = '\n'.join(v).strip()
        s = re.sub(r'\balloc\d+\b', 'alloc#', s)
        res[k] = s
    return res


def features():
    """algorithm features declared in Cargo.toml"""
    out = []
    sec = None
    for line in open(os.path.join(REPO, 'Cargo.toml')):
        m = re.match(r'\s*\[(.*?)\]', line)
        if m and '=' not in line:
            sec = m.group(1)
            continue
        m = re.match(r'\s*([A-Za-z0-9_-]+)\s*=', line)
        if sec == 'features' and m and m.group(1) != 'default':
            out.append(m.group(1))
    return out


def first_error(out):
    m = re.search(r'(error(\[E\d+\])?:[^\n]*)\n\s*--> ([^\n]*)', out)
    if m:
        return m.group(1), m.group(3)
    m = re.search(r'error[^\n]*', out)
    return (m.group(0) if m else out[:200]), ''


def pmap(f, xs, n=8):
    with ThreadPoolExecutor(n) as ex:
        return list(ex.map(f, xs))
