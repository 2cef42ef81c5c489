"""Shared drivers of the checks."""
import os
import sys
from fractions import Fraction
from sa import expr as X, harness as H, spec as SP, interp as I, models as M
from sa.expr import Expr, lift
from sa.values import *  # noqa
from sa.check import Check, stale_in


def primary(S):
    u = S.c.get('u')
    return tuple(u) if isinstance(u, (tuple, list)) else (u,)


HIST = {'KMM': ('U_hat0', 'H_hat1'), 'KMMr': ('U_hat0', 'H_hat1'), 'KMM_RB': ('U_hat0', 'H_hat1', 'phi_hat0', 'phi_hat1'),
        'Coupled': ('UP_hat0', 'H_hat1')}


def setup_state(S, forcing=('Source', 'Sk'), hist=()):
    """Fresh symbols for the state and forcing; stale data everywhere else."""
    H.stale_all(S)
    S.state = []
    for i, a in enumerate(primary(S)):
        S.state.append(H.name_cells(a, 'uvw'[i] + 'h'))
    S.force = {}
    for k in forcing:
        if isinstance(S.c.get(k), Arr):
            fl = ('real',) if S.c[k].kind == 'Array' else ()
            S.force[k] = H.name_cells(S.c[k], k, fl)
    S.hist = {}
    for k in hist:
        if isinstance(S.c.get(k), Arr):
            S.hist[k] = H.name_cells(S.c[k], k)
    return S


def new_state(S):
    """Other symbols for the state and forcing; all other arrays keep what they hold."""
    S.state = [H.name_cells(a, 'xyz'[i] + 'n') for i, a in enumerate(primary(S))]
    for k in S.force:
        S.force[k] = H.name_cells(S.c[k], k + 'n', ('real',) if S.c[k].kind == 'Array' else ())


def set_conv(S):
    f = S.solver.env.get('getConvection')
    if f is None:
        raise AnalysisError('anchor vanished: getConvection')
    S.solver.env['conv'] = S.it.call(f, [S.params.attrs['convection']], {}, None)


def tendency_protocol(S):
    """solver.ComputeRHS(rhs, u, solver, **context), as every integrator calls it."""
    set_conv(S)
    it = S.it
    rhs = S.c['dU']
    r = it.call(it.get_attr(S.solver, 'ComputeRHS', None),
                [rhs] + list(primary(S)) + [S.solver], dict(S.c), None)
    return r


def tendency_euler(S):
    """(u1-u0)/dt after one ForwardEuler step taken by spectralDNS.solve."""
    S.params.attrs['integrator'] = 'ForwardEuler'
    u = primary(S)[0]
    out = []

    def upd(n):
        out.extend(H.cells(u))
        out.append([H.prov(u, j) for j in range(len(u.idx))])
    H.drive(S, 1, upd)
    pr = out.pop()
    dt = S.vals['dt']
    return [(e - u0)*X.inverse(dt) if isinstance(e, Expr) else e for e, u0 in zip(out, S.state[0])], pr


def check_tendency(chk, key, name, wants, pre=None, **over):
    """Both routes must disagree with the reference before it is reported."""
    errs = []
    res = None
    S = None
    for route in ('protocol', 'euler'):
        cold = None
        try:
            S = H.load(name, pre=pre, **over)
            setup_state(S)
            want = wants(S)
            u0 = [list(s) for s in S.state]
            f0 = {k: list(H.cells(S.c[k])) for k in S.force}
            if route == 'protocol':
                r = tendency_protocol(S)
                if not isinstance(r, Arr):
                    raise AnalysisError('ComputeRHS returned %r' % (r,))
                got = S.it.arr_get(r)
                pr = [H.prov(r, j) for j in range(len(r.idx))]
                if [H.cells(a) for a in primary(S)] != u0:
                    got = got + [lift(0)]
                    want = want + [lift(1)]
                    pr.append('%s: evaluating the tendency changed the state' % name)
                cold = len(want)
                if any(list(H.cells(S.c[k])) != v for k, v in f0.items()):
                    got = got + [lift(0)]
                    want = want + [lift(1)]
                    pr.append('%s: evaluating the tendency changed the source' % name)
                # once more at the same time and step, for other fields, everything else left as it is
                new_state(S)
                want = want + wants(S)
                r = S.it.call(S.it.get_attr(S.solver, 'ComputeRHS', None),
                              [r] + list(primary(S)) + [S.solver], dict(S.c), None)
                if not isinstance(r, Arr):
                    raise AnalysisError('ComputeRHS returned %r' % (r,))
                got = got + S.it.arr_get(r)
                pr += [H.prov(r, j) for j in range(len(r.idx))]
            else:
                got, pr = tendency_euler(S)
        except AbsRaise as e:
            errs.append((route, 'raises %s: %s' % (e.name, e.msg), getattr(e, 'loc', None)))
            if S is not None and route == 'euler':
                chk.absorb(S.it, suspects=False)
            continue
        sub = Check('tmp')
        for j, (g, w) in enumerate(zip(got, want)):
            sub.eq('%s[%d]' % (key, j), g, w, pr[j])
        if len(got) < len(want):
            sub.bad(key, 'tendency has %d components, %d required' % (len(got), len(want)))
        for s in S.it.suspects:
            if s[0] in ('index-out-of-range', 'index-axis-mismatch', 'matvec-alias'):
                sub.bad('%s/%s' % (key, s[0]), s[2] if len(s) > 2 else s[0], s[1])
        if res is None or not any(o[1] == 'bad' for o in sub.obs):
            res = sub
        if not any(o[1] == 'bad' for o in sub.obs):
            break
        if cold and not any(o[1] == 'bad' for o in sub.obs[:cold]):
            # correct when called first, wrong when called again: every multi-stage integrator calls it again
            res = sub
            break
    if S is not None:
        chk.absorb(S.it, suspects=False)
    if res is None:
        for route, msg, loc in errs:
            chk.bad('%s/%s' % (key, route), msg, loc)
        return
    chk.obs.extend((chk.prefix + o[0], o[1], o[2], o[3]) for o in res.obs)
    if len(chk.samples) < 4:
        chk.samples.extend(res.samples[:1])


# ------------------------------------------------------------ time loop driver
ALL_SOLVERS = ('NS', 'VV', 'MHD', 'NS2D', 'Bq2D', 'KMM', 'KMMr', 'KMMRK3', 'KMM_RB', 'KMMRK3_RB', 'Coupled', 'CoupledRK3')


def load_solver(name, **over):
    if name == 'MHD':
        over.setdefault('convection', 'Divergence')
    if name in ('KMM_RB', 'KMMRK3_RB'):
        over.setdefault('kappa', H.real('kappa', 'pos'))
    return H.load(name, **over)


STATE_NAMES = {'VV': ('W_hat',), 'MHD': ('UB_hat',), 'Bq2D': ('Ur_hat',)}


def stub_integrator(S, log, dts=None):
    """Replaces getintegrator: a step gives the state fresh values."""
    n = [0]

    def integrate(it, a, k, node):
        n[0] += 1
        log.append(('step', n[0]))
        for k_, v in list(S.c.items()):
            if isinstance(v, Arr) and v.kind == 'Function':
                H.name_cells(v, '%s@%d.' % (k_, n[0]))
        took = S.params.attrs['dt'] if not dts else dts[min(n[0], len(dts))-1]
        return (S.c['u'], S.params.attrs['dt'] if not dts else dts[min(n[0], len(dts)-1)], took)
    S.solver.env['getintegrator'] = Builtin('getintegrator', lambda it, a, k, nd: Builtin('integrate', integrate))


def dt_sign(p, sub):
    """Sign of a polynomial in the positive symbol dt after the substitution
    sub (atom name -> Expr); absolute values resolved; tiny constants ignored."""
    def f(a):
        if a.kind == 'sym' and a.name in sub:
            return sub[a.name]
        if a.kind == 'fun' and a.name == 'abs':
            q = X.substitute(a.args[0], f)
            s = lead_sign(q)
            if s is None:
                return None
            return q if s >= 0 else -q
        return None
    q = X.substitute(p, f)
    return lead_sign(q)


def lead_sign(q):
    """+1/-1/0 for k*dt + tiny; None if other symbols are left."""
    k = c = Fraction(0)
    for m, v in q.t.items():
        if m == ():
            c = v
        elif len(m) == 1 and m[0][1] == 1 and X._BYID[m[0][0]].name == 'dt':
            k = v
        else:
            return None
    if k != 0:
        return 1 if k > 0 else -1
    return 0 if c == 0 else (1 if c > 0 else -1)


def decide_ind(e, val):
    """Replace top-level indicator atoms by val(atom) -> bool/None; truth or None."""
    for a in list(e.atoms()):
        v = val(a)
        if v is not None:
            e = X.subst_ind(e, a, 1 if v else 0)
    c = X.const_value(e)
    return None if c is None else c != 0


def time_oracle(sub):
    def val(a):
        if a.kind != 'ind' or a.name not in ('gt0', 'eq0'):
            return None
        s = dt_sign(a.args[0], sub)
        if s is None:
            return None
        return s > 0 if a.name == 'gt0' else s == 0
    return lambda e: decide_ind(e, val)


# ---------------------------------------------------------------- output
def fold(e, sub):
    """Constant value of e after substituting atoms (sub: atom -> value or None),
    innermost first; None if symbols are left."""
    def f(a):
        v = sub(a)
        if v is not None:
            return lift(v)
        if a.kind == 'fun' and a.name.startswith('mpi_') and a.args:
            return X.substitute(a.args[0], f)
        return None
    c = X.const_value(X.substitute(e, f))
    return c


class Killer(object):
    """Answers conditions on the presence of files: `local` on this rank,
    `anyrank` after a reduction over all ranks."""
    def __init__(self):
        self.local = self.anyrank = False
        self.uniform = True
        self.raw = []

    def __call__(self, e):
        def f(a):
            if a.kind == 'fun' and a.name.startswith('mpi_'):
                inner = X.substitute(a.args[0], g)
                c = X.const_value(inner)
                c0 = X.const_value(X.substitute(a.args[0], lambda q: lift(0) if g(q) is not None else None))
                if c is None or c0 is None:
                    return None
                if a.name in ('mpi_SUM', 'mpi_MAX', 'mpi_LOR', 'mpi_BOR'):
                    c1 = X.const_value(X.substitute(a.args[0], lambda q: lift(1) if g(q) is not None else None))
                    return lift(c1 if self.anyrank else c0)
                return None
            return g(a)

        def g(a):
            if a.kind == 'sym' and a.name.startswith('file:'):
                return lift(1 if self.local and a.name == 'file:killspectraldns' else 0)
            return None
        has = [a for a in X.all_atoms(e) if a.kind == 'sym' and a.name.startswith('file:')]
        if not has or X.rank_local(e):
            return None          # purely local: both outcomes are possible
        c = X.const_value(X.substitute(e, f))
        return None if c is None else c != 0


def step_state(S):
    """Arrays holding the current solution (and the pressure by-product)."""
    out = list(primary(S))
    st = {id(a.store) for a in out}
    for k in ('P_hat',):
        v = S.c.get(k)
        if isinstance(v, Arr) and id(v.store) not in st:
            out.append(v)
    return out


def stub_state(S, log):
    """Integrator stub: only the solution changes, to fresh symbols."""
    n = [0]

    def integrate(it, a, k, node):
        n[0] += 1
        log.append(n[0])
        for j, v in enumerate(step_state(S)):
            H.name_cells(v, 'S%d@%d.' % (j, n[0]))
        return (S.c['u'], S.params.attrs['dt'], S.params.attrs['dt'])
    S.solver.env['getintegrator'] = Builtin('getintegrator', lambda it, a, k, nd: Builtin('integrate', integrate))


def bwd_of(space, e):
    return X.linop(('bwd', space.sig(), ''), e, tuple(range(len(space.sig()))))


CPDATA = {'NS': ('U', 0), 'NS2D': ('U', 0), 'VV': ('curl', 0), 'MHD': ('UB', 0), 'Bq2D': ('Ur', 0), 'Coupled': ('UP', 0),
          'CoupledRK3': ('UP', 0)}
PREV = {'KMM': {'U': 'U_hat0'}, 'KMMr': {'U': 'U_hat0'}, 'KMM_RB': {'U': 'U_hat0', 'phi': 'phi_hat0'}, 'Coupled': {'UP': 'UP_hat0'}}


def checkpoint_arrays(S):
    """name -> array of the current solution that a restart needs."""
    p = primary(S)
    if S.name in CPDATA:
        return {CPDATA[S.name][0]: p[0]}
    d = {'U': p[0]}
    if S.name.endswith('_RB'):
        d['phi'] = p[2]
    return d


def result_fields(S):
    """name -> expected physical values of the result fields."""
    p = primary(S)
    u = H.cells(p[0])
    nm = S.name
    if nm in ('NS', 'VV', 'MHD', 'NS2D', 'Bq2D'):
        F = SP.Fourier(S.ndim, 'None')
        b = lambda es: [F.bwd(e, '') for e in es]
        if nm in ('NS', 'NS2D'):
            return {'U': b(u), 'P': b([-X.IMAG*e for e in H.cells(S.c['P_hat'])])}
        if nm == 'VV':
            return {'U': b([X.IMAG*q for q in SP.cross(F.KK, u)]), 'curl': b(u)}
        return {'UB' if nm == 'MHD' else 'UR': b(u)}
    ax = 2 if nm == 'KMMr' else 0
    q = lambda k, quad: tuple(('F', 'N%d' % i, 'r' if i == (1 if ax == 2 else 2) else 'c') if i != ax else (k, 'N%d' % i, quad, None)
                              for i in range(3))
    kinds = ['D', 'D', 'D']
    if not nm.startswith('Coupled'):
        kinds[ax] = 'B'
    out = {'U': [X.linop(('bwd', q(k, 'GC'), ''), e, (0, 1, 2)) for k, e in zip(kinds, u)]}
    if nm.endswith('_RB'):
        out['phi'] = [bwd_of(p[2].space, e) for e in H.cells(p[2])]
    return out


# ------------------------------------------------------------ implicit channel solvers
class StubConv(object):
    """Replaces getConvection: every evaluation gives fresh symbols.
    calls: (state cells seen, symbols returned)"""
    def __init__(self, S, before=None):
        self.calls = []

        def conv(it, a, k, n):
            if before:
                before(len(self.calls))
            seen = []
            for v in a[1:3]:
                if isinstance(v, Arr) and v.kind in ('Function', 'Array'):
                    seen += H.cells(v)
            seen = [e for v in primary(S)[:2] for e in H.cells(v)] if not seen else seen
            h = H.name_cells(a[0], 'H%d_' % len(self.calls))
            self.calls.append((seen, h))
            return a[0]
        S.solver.env['getConvection'] = Builtin('getConvection', lambda it, a, k, n: Builtin('conv', conv))


def one_level(S, names, which):
    """Old-level arrays hold a copy of the current state (as at the start of any step)."""
    p = primary(S)[which]
    for k in names:
        a = S.c[k]
        for i, j in zip(a.idx, p.idx):
            a.store.cells[i] = p.store.cells[j]


def run_steps(S, n, upd, nsteps=None):
    """spectralDNS.solve over n steps without output."""
    P = S.params.attrs
    P['write_result'] = P['checkpoint'] = 10**8
    clock = time_oracle({'Tend': S.vals['t'] + S.vals['dt']*(n+1)})
    kill = Killer()

    def oracle(e):
        if 'Tend' in {a.name for a in X.all_atoms(e) if a.kind == 'sym'}:
            return clock(e)
        return kill(e)
    S.it.config['oracle'] = oracle
    H.drive(S, n, upd)


def all_stores(S):
    seen = {}
    for _, a in H.arrays(S.c):
        seen[id(a.store)] = a.store
    for st in getattr(S.it, 'stores', ()):
        seen[id(st)] = st
    for e in S.it.events:
        if e.kind == 'work':
            seen[id(e.data[2])] = e.data[2]
    return seen.values()


def rename(S, a, base):
    """Give the value in each cell of a the name base<j>, wherever it is stored."""
    old = H.cells(a)
    new = H.name_cells(a, base)
    m = {o: n for o, n in zip(old, new) if isinstance(o, Expr) and not X.const_value(o) == 0}
    for st in all_stores(S):
        for i, e in enumerate(st.cells):
            if isinstance(e, Expr) and e in m:
                st.cells[i] = m[e]
    return new


def both_routes(chk, key, attempt, routes=(True, False)):
    """attempt(sub, route) -> S; a violation is reported when every route shows it."""
    best = None
    S = None
    for r in routes:
        sub = Check('tmp')
        try:
            S = attempt(sub, r)
        except AbsRaise as e:
            sub.bad('%s/raise' % key, 'raises %s: %s' % (e.name, e.msg), getattr(e, 'loc', None))
        except AnalysisError as e:
            sub.unknown('%s/analysis' % key, str(e))
        if S is not None:
            for s in S.it.suspects:
                if s[0] in ('index-out-of-range', 'index-axis-mismatch', 'matvec-alias'):
                    sub.bad('%s/%s' % (key, s[0]), s[2] if len(s) > 2 else s[0], s[1])
        nbad = any(o[1] == 'bad' for o in sub.obs)
        if best is None or not nbad:
            best = sub
        if not nbad:
            break
    if S is not None:
        chk.absorb(S.it, suspects=False)
    chk.obs.extend((chk.prefix + o[0], o[1], o[2], o[3]) for o in best.obs)
    if len(chk.samples) < 4:
        chk.samples.extend(best.samples[:1])
