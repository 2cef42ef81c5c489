"""Obligations, findings, evidence."""
import json
import os
import signal
import sys
import time
import traceback
from . import expr as X
from .expr import Expr, lift
from .values import Top, AbsRaise, AnalysisError

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def known_findings():
    out = []
    p = os.path.join(VERIF, 'known_findings.txt')
    if os.path.isfile(p):
        for ln in open(p):
            ln = ln.strip()
            if ln.startswith('KNOWN-FINDING:'):
                # KNOWN-FINDING: property=<id> key=<obligation key> :: text
                head, _, text = ln[len('KNOWN-FINDING:'):].partition('::')
                d = dict(w.split('=', 1) for w in head.split() if '=' in w)
                out.append((d.get('property'), d.get('key'), text.strip()))
    return out


class Check(object):
    def __init__(self, pid, tier='quick', seed=1):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.t0 = time.time()
        self.obs = []            # (key, status, detail, loc)
        self.functions = set()
        self.stmts = set()
        self.notes = []
        self.extra = {}
        self.samples = []
        self.prefix = ''
        self.budget = 780 if tier == 'quick' else 3300
        self.case_budget = 120 if tier == 'quick' else 600

    @property
    def thorough(self):
        return self.tier == 'thorough'

    # ------------------------------------------------------------ recording
    def add(self, key, status, detail='', loc=None):
        self.obs.append((self.prefix + key, status, detail, loc))

    def ok(self, key, detail='', loc=None):
        self.add(key, 'ok', detail, loc)

    def bad(self, key, detail='', loc=None):
        self.add(key, 'bad', detail, loc)

    def unknown(self, key, detail='', loc=None):
        self.add(key, 'unknown', detail, loc)

    def true(self, key, cond, detail='', loc=None):
        self.add(key, 'ok' if cond else 'bad', '' if cond else detail, loc)
        return cond

    def eq(self, key, got, want, loc=None, what=''):
        """got == want as normal forms."""
        if isinstance(got, Top):
            self.unknown(key, 'value unknown: %s' % got.why, loc)
            return None
        if not isinstance(got, Expr):
            try:
                got = lift(got)
            except Exception:
                self.unknown(key, 'value not numeric: %r' % (got,), loc)
                return None
        want = lift(want)
        bad = [a for a in X.all_atoms(got) if 'unknown' in a.flags]
        if X.equal(got, want):
            self.add(key, 'ok', '', loc)
            if len(self.samples) < 4:
                self.samples.append({'obligation': self.prefix + key, 'normal_form': X.short(want, 500)})
            return True
        if bad:
            self.unknown(key, 'depends on unmodelled %s' % bad[0], loc)
            return None
        st = stale_in(got)
        d = got - want
        msg = what + ('; ' if what else '')
        if st and not stale_in(want):
            msg += 'reads left-over contents of work space %s; ' % ', '.join(sorted(str(q) for q in st)[:4])
        msg += 'difference (computed - required) = %s' % X.short(d, 1200)
        self.bad(key, msg, loc)
        return False

    def eqs(self, key, arr, wants, what=''):
        """Component-wise comparison of an abstract array with a list."""
        from . import harness as H
        got = H.cells(arr)
        if len(got) != len(wants):
            self.bad(key, 'array has %d components, %d required' % (len(got), len(wants)))
            return
        for j, (g, w) in enumerate(zip(got, wants)):
            self.eq('%s[%d]' % (key, j), g, w, H.prov(arr, j), what)

    def guard(self, key, sim=None):
        return _Guard(self, key)

    def absorb(self, it, suspects=True, key=''):
        """Account for what an interpreter instance analysed; report the
        definite errors it met."""
        for (path, fn, ln), n in it.visited.items():
            self.functions.add('%s:%s' % (it.repo.rel(path), fn))
        self.stmts |= {(it.repo.rel(p), l) for p, l in it.path_stmts}
        for n in it.notes:
            if n not in self.notes:
                self.notes.append(n)
        if suspects:
            seen = set()
            for s in it.suspects:
                k = (s[0], s[1])
                if k in seen:
                    continue
                seen.add(k)
                fn = s[1].split('(')[-1].rstrip(')') if '(' in s[1] else s[1]
                self.bad('%s%s@%s' % (key + '/' if key else '', s[0], fn),
                         s[2] if len(s) > 2 else s[0], s[1])

    # --------------------------------------------------------------- finish
    def finish(self, rule, assumptions=(), trusted=(), level='other', minimum=1):
        kf = [(k, t) for p, k, t in known_findings() if p == self.pid]
        bad = [o for o in self.obs if o[1] == 'bad']
        unk = [o for o in self.obs if o[1] == 'unknown']
        good = [o for o in self.obs if o[1] == 'ok']
        viol, known = [], {}
        for o in bad:
            for k, t in kf:
                if o[0] == k or (k.endswith('*') and o[0].startswith(k[:-1])):
                    known.setdefault(k, (t, []))[1].append(o)
                    break
            else:
                viol.append(o)
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        ev = {
            'property': self.pid, 'tier': self.tier, 'seed': self.seed, 'level': level,
            'coverage': dict({
                'obligations': len(self.obs), 'discharged': len(good),
                'undecided': len(unk), 'known_findings': sum(len(v[1]) for v in known.values()),
                'rule': rule, 'explanation': rule,
                'functions_analysed': sorted(self.functions),
                'functions': len(self.functions),
                'statements_interpreted': len(self.stmts),
                'samples': self.samples or [o[0] for o in good[:4]],
                'undecided_obligations': [{'obligation': o[0], 'why': o[2], 'where': o[3]} for o in unk[:50]],
                'unmodelled_constructs': self.notes[:50],
                'obligation_list': [o[0] for o in self.obs][:600],
            }, **self.extra),
            'assumptions': list(assumptions),
            'wall_s': round(time.time() - self.t0, 3),
            'violations': len(viol),
        }
        if trusted:
            ev['coverage']['trusted_base'] = list(trusted)
        with open(os.path.join(VERIF, 'evidence', self.pid + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
        for k, (t, os_) in known.items():
            print('KNOWN-FINDING: property=%s %s' % (self.pid, t))
        print('%s: %d obligations, %d discharged, %d undecided, %d violated, %d functions, %d statements, %.1fs' % (
            self.pid, len(self.obs), len(good), len(unk), len(viol), len(self.functions), len(self.stmts),
            time.time() - self.t0))
        for o in unk[:20]:
            print('  undecided: %s: %s%s' % (o[0], o[2][:300], ' at %s' % o[3] if o[3] else ''))
        if viol:
            rp = os.path.join('evidence', self.pid + '-violations.txt')
            with open(os.path.join(VERIF, rp), 'w') as f:
                for o in viol:
                    f.write('property %s\nobligation: %s\nwhere: %s\n%s\n\n' % (self.pid, o[0], o[3], o[2]))
            for o in viol[:6]:
                print('  broken: %s at %s: %s' % (o[0], o[3], o[2][:300]))
            print('VIOLATION property=%s replay=%s' % (self.pid, rp))
            return 1
        if len(good) < minimum:
            print('%s: analysis broken: only %d obligations discharged (at least %d expected)' % (
                self.pid, len(good), minimum))
            return 2
        return 0


def stale_in(e):
    return {a.name for a in X.all_atoms(e) if 'stale' in a.flags}


class OutOfTime(Exception):
    pass


def _alarm(*a):
    raise OutOfTime('time budget of this case used up')


class _Guard(object):
    """Definite exceptions of the analysed code are violations; limits of the
    analysis are undecided obligations."""
    def __init__(self, chk, key):
        self.chk, self.key = chk, key

    def __enter__(self):
        left = self.chk.budget - (time.time() - self.chk.t0)
        self.armed = left > 0
        signal.signal(signal.SIGALRM, _alarm)
        signal.setitimer(signal.ITIMER_REAL, max(0.01, min(left, self.chk.case_budget)))
        return self

    def __exit__(self, t, v, tb):
        signal.setitimer(signal.ITIMER_REAL, 0)
        if t is None:
            return False
        if issubclass(t, AbsRaise):
            self.chk.bad(self.key + '/raises', '%s: %s' % (v.name, v.msg),
                         getattr(v, 'loc', None))
            return True
        if issubclass(t, (KeyboardInterrupt, SystemExit)):
            return False
        if os.environ.get('VERIF_DEBUG'):
            traceback.print_exception(t, v, tb)
        fr = traceback.extract_tb(tb)[-1]
        self.chk.unknown(self.key + '/analysis', '%s: %s (%s:%s)' % (t.__name__, v, os.path.basename(fr.filename), fr.lineno))
        return True
