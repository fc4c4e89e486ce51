"""Obligations, verdicts, evidence and replay files of one check run."""
import json
import os
import sys
import time
import traceback
from . import terms as tm
from .interp import Unsupported
from .irbuild import BuildError

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
OUT = os.environ.get('SA_OUT') or os.path.join(VERIF, 'evidence')
TRUSTED = ['rustc nightly front end and MIR lowering (overflow checks on)',
           'LLVM inliner/SROA/instcombine/GVN as semantics-preserving normalisation of the emitted IR',
           'the value-graph normaliser, linear-integer domain and rule engines in /verif/sa (Python)',
           'the reference recurrences in /verif/sa/spec.py, written from the published algorithms']


class Obl:
    def __init__(self, name, status, detail='', where='', key=None):
        self.name, self.status, self.detail, self.where = name, status, detail, where
        self.key = key or name

    def js(self):
        d = {'obligation': self.name, 'status': self.status}
        if self.where:
            d['where'] = self.where
        if self.detail:
            d['detail'] = self.detail if len(self.detail) < 3000 else self.detail[:3000] + ' ...'
        return d


class Report:
    def __init__(self, pid, tier):
        self.pid, self.tier = pid, tier
        self.obls = []
        self.t0 = time.time()
        self.notes = []
        self.counts = {}
        self.known = known_keys(pid)
        self.assume = []
        self.level = 'proof'
        self.rule = ''
        self.errors = 0

    def held(self, name, detail='', where=''):
        self.obls.append(Obl(name, 'held', detail, where))

    def undecided(self, name, detail='', where=''):
        self.obls.append(Obl(name, 'undecided', detail, where))

    def violation(self, name, detail, where='', key=None):
        k = key or name
        st = 'known' if k in self.known else 'violation'
        self.obls.append(Obl(name, st, detail, where, k))

    def count(self, **kw):
        for k, v in kw.items():
            self.counts[k] = self.counts.get(k, 0) + v

    def item(self, nm, where='', seconds=240):
        return Item(self, nm, where, seconds)

    def finish(self):
        os.makedirs(OUT, exist_ok=True)
        viol = [o for o in self.obls if o.status == 'violation']
        known = [o for o in self.obls if o.status == 'known']
        und = [o for o in self.obls if o.status == 'undecided']
        held = [o for o in self.obls if o.status == 'held']
        cov = {
            'obligations': len(self.obls),
            'discharged': len(held),
            'undecided': len(und),
            'known_findings': len(known),
            'checker_cmd': 'python3 /verif/check.py %s --tier %s' % (self.pid, self.tier),
            'trusted_base': TRUSTED,
            'rule': self.rule,
            'explanation': self.rule or 'static obligations over the compiled form of /repo',
        }
        cov.update(self.counts)
        cov['samples'] = [o.js() for o in held[:6]]
        if und:
            cov['undecided_list'] = [o.js() for o in und]
        if self.errors:
            cov['analysis_errors'] = self.errors
        if known:
            cov['known_list'] = [o.js() for o in known]
        if self.notes:
            cov['notes'] = self.notes
        cov['all'] = [o.name for o in held]
        ev = {
            'property': self.pid,
            'tier': self.tier,
            'seed': int(os.environ.get('VERIF_SEED', '1') or 1),
            'level': self.level,
            'coverage': cov,
            'assumptions': self.assume,
            'wall_s': round(time.time() - self.t0, 2),
            'violations': len(viol),
        }
        if viol:
            ev['coverage']['violation_list'] = [o.js() for o in viol]
        p = os.path.join(OUT, self.pid + '.json')
        json.dump(ev, open(p, 'w'), indent=1)
        seen = set()
        for o in known:
            if o.key not in seen:
                seen.add(o.key)
                print('KNOWN-FINDING: property=%s %s (%s)' % (self.pid, o.name, o.where))
        print('%s: %d obligations, %d held, %d undecided, %d violations (%.1fs)'
              % (self.pid, len(self.obls), len(held), len(und), len(viol), time.time() - self.t0))
        for o in und:
            print('  undecided: %s: %s' % (o.name, o.detail[:300]))
        if viol:
            d = os.path.join(OUT, 'replay')
            os.makedirs(d, exist_ok=True)
            for n, o in enumerate(viol[:20]):
                rp = os.path.join(d, '%s-%d.json' % (self.pid, n))
                json.dump({'property': self.pid, 'rule': self.rule, 'construct': o.where, 'violation': o.js(),
                           'replay': 'python3 /verif/check.py %s --tier %s' % (self.pid, self.tier)}, open(rp, 'w'), indent=1)
                print('  %s: %s at %s: %s' % (o.status, o.name, o.where, o.detail[:600]))
                print('VIOLATION property=%s replay=%s' % (self.pid, rp))
            return 1
        return 0


class Item:
    """one obligation under a time budget; what the analysis cannot follow is undecided"""

    def __init__(self, rep, nm, where, seconds):
        self.rep, self.nm, self.where, self.s = rep, nm, where, seconds

    def __enter__(self):
        self.old = tm.budget(self.s)
        return self

    def __exit__(self, t, e, tb):
        tm.restore(self.old)
        if e is None:
            return False
        if isinstance(e, (Unsupported, tm.TooLong, MemoryError)):
            self.rep.undecided(self.nm, str(e), self.where)
            return True
        if isinstance(e, Exception) and not isinstance(e, BuildError):
            tr = traceback.extract_tb(tb)[-1]
            self.rep.undecided(self.nm, 'analysis stopped: %s %s (%s:%d)' % (type(e).__name__, e, os.path.basename(tr.filename), tr.lineno), self.where)
            self.rep.errors += 1
            return True
        return False


def known_keys(pid):
    p = os.path.join(VERIF, 'known_findings.txt')
    out = set()
    if os.path.exists(p):
        for line in open(p):
            if line.startswith('finding: property=%s ' % pid):
                for w in line.split():
                    if w.startswith('key='):
                        out.add(w[4:])
    return out


def main(argv):
    import argparse
    import importlib
    ap = argparse.ArgumentParser()
    ap.add_argument('id')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER') or 'quick')
    a = ap.parse_args(argv)
    rep = Report(a.id, a.tier)
    mod = importlib.import_module('sa.checks.' + a.id.lower())
    tm.budget(700)
    try:
        mod.check(rep)
    except BuildError as e:
        print(e)
        print('check %s could not build the tree' % a.id)
        return 2
    except Exception as e:
        # the analysis cannot follow the tree: nothing further is decided, and nothing is reported
        traceback.print_exc()
        rep.undecided('remaining obligations', '%s: %s' % (type(e).__name__, e))
        rep.errors += 1
    try:
        from . import valued
        valued.settle(rep, 120 if a.tier == 'quick' else 400)
    except Exception as e:
        traceback.print_exc()
        rep.errors += 1
    return rep.finish()
