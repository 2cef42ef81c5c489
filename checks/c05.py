"""C05: explicit time integrators are the methods their names promise."""
from fractions import Fraction
from sa import models as M
from sa.interp import far_decide
from .common import *  # noqa

RULE = ('spectralDNS.solve is abstractly interpreted for several steps with the right-hand side replaced by a '
        'fresh symbol per distinct argument.  The Butcher tableau of every step is reconstructed from the '
        'normal forms of stage arguments and of the new solution, and has to satisfy the order conditions '
        '(rooted trees) of the method; the same is done along the rejected-then-accepted path of the adaptive '
        'method, after a change of step size, and for runs that start at a non-zero step count.')
ASSUMPTIONS = ('the right-hand side is a function of the solution only (autonomous, deterministic)',)
MINIMUM = 60

SOLVERS = ('NS', 'VV', 'MHD', 'NS2D', 'Bq2D')


# ------------------------------------------------------------- rooted trees
def trees(n, _c={}):
    """Rooted trees with n nodes as sorted tuples of subtrees."""
    if n in _c:
        return _c[n]
    out = set()
    if n == 1:
        out = {()}
    else:
        def parts(m, mx):
            if m == 0:
                yield ()
                return
            for k in range(min(m, mx), 0, -1):
                for t in trees(k):
                    for r in parts(m-k, k):
                        yield (t,)+r
        for p in parts(n-1, n-1):
            out.add(tuple(sorted(p)))
    _c[n] = sorted(out)
    return _c[n]


def size(t):
    return 1 + sum(size(s) for s in t)


def gamma(t):
    g = size(t)
    for s in t:
        g *= gamma(s)
    return g


def stage_weight(A, t):
    s = len(A)
    out = [Fraction(1)]*s
    for sub in t:
        w = stage_weight(A, sub)
        out = [out[i]*sum((A[i][j]*w[j] for j in range(s)), Fraction(0)) for i in range(s)]
    return out


def order(A, b, pmax=6):
    for p in range(1, pmax+1):
        for t in trees(p):
            w = stage_weight(A, t)
            if abs(sum(b[i]*w[i] for i in range(len(b))) - Fraction(1, gamma(t))) > Fraction(1, 10**12):
                return p-1
    return pmax


# ------------------------------------------------------------------ driver
class Run(object):
    pass


def simulate(solver, integ, nsteps, tstep0=0, dts=None, oracle=None, count=None, **over):
    S = H.load(solver, integrator=integ, convection='Divergence' if solver == 'MHD' else 'Vortex',
               tstep=tstep0, **over)
    setup_state(S)
    it = S.it
    R = Run()
    R.S, R.F, R.inputs, R.fu0 = S, {}, [], []
    ncomp = len(primary(S)[0].idx)
    R.ncomp = ncomp

    def rhs_hook(it_, a, k, n):
        rhs, u = a[0], a[1]
        if len(a) != 3:
            raise AbsRaise('TypeError', 'ComputeRHS called with %d positional arguments' % len(a), n)
        if k.get('work') is not S.c.get('work'):
            raise AbsRaise('TypeError', 'ComputeRHS called without the solver context', n)
        inp = tuple(it.arr_get(u))
        if inp not in R.F:
            i = len(R.inputs)
            R.F[inp] = [X.sym('F%d_%d' % (i, j), tuple(range(S.ndim))) for j in range(len(rhs.idx))]
            R.inputs.append(inp)
        if any(isinstance(x, Top) for x in inp):
            raise AnalysisError('stage argument unknown: %s' % [x for x in inp if isinstance(x, Top)][0].why)
        for k_, v in zip(rhs.idx, R.F[inp]):
            rhs.store.cells[k_] = v
        return rhs

    def eot(it_, a, k, n):
        i = len(R.steps)
        if dts and i in dts:
            S.params.attrs['dt'] = dts[i]
        return False

    def cb(it_, a, k, n):
        f = S.c.get('fu0')
        rej = S.c.get('is_step_rejected_callback')
        if isinstance(f, Arr):
            R.fu0.append(([x for x in it.arr_get(f)], list(H.cells(primary(S)[0])), len(R.steps), rej))
    S.solver.env['ComputeRHS'] = Builtin('ComputeRHS', rhs_hook)
    S.solver.env['end_of_tstep'] = Builtin('end_of_tstep', eot)
    S.solver.env['additional_callback'] = Builtin('additional_callback', cb)
    nop = Builtin('nop', lambda *a: None)
    S.c['hdf5file'] = Obj('F', update=nop, close=nop)
    it.config['far'] = True
    if oracle:
        it.config['oracle'] = oracle
    R.u0 = list(H.cells(primary(S)[0]))
    R.t0 = S.params.attrs['t']
    R.steps = []

    def upd(n):
        R.steps.append((list(H.cells(primary(S)[0])), S.params.attrs['dt'], S.params.attrs['t'],
                        S.params.attrs['tstep'], H.prov(primary(S)[0], 0)))
        if isinstance(S.params.attrs['dt'], Expr) and len(X.all_atoms(S.params.attrs['dt'])) > 1:
            # the proposed step size is just some positive number from here on
            S.params.attrs['dt'] = H.real('h%d' % n, 'pos')
        if count and n in count:
            S.params.attrs['tstep'] = count[n]
    H.drive(S, nsteps, upd)
    return R


def lin_coeffs(e, base, R, c):
    """e - base as {call index: coefficient}; None if something else is left."""
    d = e - base
    out = {}
    for i in range(len(R.inputs)):
        F = R.F[R.inputs[i]][c]
        (m, _), = F.t.items()
        aid = m[0][0]
        co = X.ZERO
        for mm, k in d.t.items():
            dd = dict(mm)
            if dd.get(aid) == 1:
                dd.pop(aid)
                co = co + Expr({tuple(sorted(dd.items())): k})
        if co.t:
            out[i] = co
            d = d - co*F
    if d.t:
        return None
    return out


def rational(e, h):
    q = e*X.inverse(h)
    return X.const_value(q)


def tableau(chk, key, R, before, after, h, loc):
    """(A, b, calls) of one step; None (recorded) when it is not of RK form."""
    ref = None
    for c in range(R.ncomp):
        if any(isinstance(x, Top) for x in (before[c], after[c])):
            chk.unknown(key, 'solution unknown', loc)
            return None
        b = lin_coeffs(after[c], before[c], R, c)
        if b is None:
            chk.bad(key, 'component %d: new solution is not old solution + combination of right-hand sides: %s' % (
                c, X.short(after[c]-before[c], 600)), loc)
            return None
        need, rows = sorted(b), {}
        todo = list(need)
        while todo:
            i = todo.pop()
            if i in rows:
                continue
            r = lin_coeffs(R.inputs[i][c], before[c], R, c)
            if r is None:
                chk.bad(key, 'component %d: stage argument is not old solution + combination of right-hand sides: %s' % (
                    c, X.short(R.inputs[i][c]-before[c], 600)), loc)
                return None
            rows[i] = r
            todo += [j for j in r if j not in rows]
        idx = sorted(rows)
        fail = None

        def rat(e):
            v = rational(e, h)
            return v if v is not None else 'x'
        A = [[rat(rows[i].get(j, X.ZERO)) for j in idx] for i in idx]
        bb = [rat(b.get(i, X.ZERO)) for i in idx]
        if any(x == 'x' for row in A for x in row) or 'x' in bb:
            chk.bad(key, 'component %d: coefficients are not multiples of the step size %s: b=%s' % (
                c, X.short(h, 80), [X.short(v, 200) for v in b.values()]), loc)
            return None
        if ref is None:
            ref = (A, bb, idx)
        elif (A, bb) != ref[:2]:
            chk.bad(key, 'components are advanced with different coefficients: %s / %s' % (ref[1], bb), loc)
            return None
    return ref


CLASSICAL = ([[0, 0, 0, 0], [Fraction(1, 2), 0, 0, 0], [0, Fraction(1, 2), 0, 0], [0, 0, 1, 0]],
             [Fraction(1, 6), Fraction(1, 3), Fraction(1, 3), Fraction(1, 6)])


def rk_step(chk, key, R, before, after, h, want, loc):
    t = tableau(chk, key + '/form', R, before, after, h, loc)
    if t is None:
        return None
    chk.ok(key + '/form')
    p = order(t[0], t[1])
    chk.true(key + '/order', p >= want, 'step has order %d, %d required; b=%s A=%s' % (
        p, want, [str(x) for x in t[1]], [[str(x) for x in r] for r in t[0]]), loc)
    return t


def clock(chk, key, R, n, dt_took, loc=None):
    chk.eq(key + '/time', R.steps[n][2], (R.steps[n-1][2] if n else R.t0) + dt_took, loc,
           'simulation time does not advance by the step taken')


def run(chk):
    full = chk.thorough
    for solver in SOLVERS:
        precs = ('double', 'single') if full else ('double',)
        for prec in precs:
            for t0 in (0, 7):
                k0 = '%s/%s/%s' % (solver, prec, 'start' if t0 == 0 else 'restart')
                for integ in ('ForwardEuler', 'RK4', 'AB2', 'BS5_fixed'):
                    with chk.guard('%s/%s' % (k0, integ)):
                        fixed(chk, '%s/%s' % (k0, integ), solver, integ, t0, prec)
                for r in (Fraction(21, 20), Fraction(999, 1000), Fraction(10001, 10000), Fraction(1, 2), Fraction(3)):
                    k = '%s/AB2/dt*%s' % (k0, r)
                    with chk.guard(k):
                        fixed(chk, k, solver, 'AB2', t0, prec, ratio=r)
                if solver == 'NS' and prec == 'double':
                    # beyond one round of the ring of stored right-hand sides
                    for at in (7, 8):
                        k = '%s/BS5_adaptive/rejected1@%d' % (k0, at)
                        with chk.guard(k):
                            adaptive(chk, k, solver, t0, prec, 1, at)
                if solver in ('NS', 'MHD', 'NS2D') or full:
                    for at, rej in ((0, 0), (0, 1), (0, 2), (1, 1), (1, 2), (2, 1)):
                        k = '%s/BS5_adaptive/rejected%d@%d' % (k0, rej, at)
                        with chk.guard(k):
                            adaptive(chk, k, solver, t0, prec, rej, at)


def fixed(chk, key, solver, integ, tstep0, prec, ratio=None, **over):
    dt = H.real('dt', 'pos')
    dt2 = H.real('dt2', 'pos') if ratio is None else dt*lift(ratio)
    # after the start-up steps the step count is any large number
    nn = H.real('manysteps', 'pos', 'int')

    def oracle(e):
        # the two step sizes differ (by more than any tolerance used)
        names = {a.name for a in X.all_atoms(e) if a.kind == 'sym'}
        if ratio is not None and names == {'dt'}:
            return time_oracle({})(e)
        if {'dt', 'dt2'} <= names and not any(str(n).startswith('F') or n in ('Tend', 't0') for n in names):
            return oracle_differ(e)
        return far_decide(e, 1, 'manysteps') if 'manysteps' in names else None
    nst, change = 7, 4
    R = simulate(solver, integ, nst, tstep0, {change: dt2}, oracle, {2: nn}, precision=prec, **over)
    chk.absorb(R.S.it)
    counts = [s[3] for s in R.steps]
    want = [tstep0+1, tstep0+2] + [nn + lift(i) for i in range(1, nst-1)]
    chk.true(key + '/steps', len(counts) == nst and all(X.equal(lift(a), lift(b)) for a, b in zip(counts, want)),
             'step counter %s' % (counts,))
    u = [R.u0] + [s[0] for s in R.steps]
    for n in range(nst):
        h = dt if n < change else dt2
        loc = R.steps[n][4]
        k = '%s/step%d' % (key, n)
        clock(chk, k, R, n, h, loc)
        if integ != 'AB2':
            t = rk_step(chk, k, R, u[n], u[n+1], h, {'ForwardEuler': 1, 'RK4': 4, 'BS5_fixed': 5}[integ], loc)
            if t and integ == 'RK4':
                chk.true(k + '/classical', (t[0], t[1]) == CLASSICAL, 'not the classical method: %s %s' % (t[0], t[1]), loc)
            if t and integ == 'ForwardEuler':
                chk.true(k + '/euler', t[1] == [1] and t[0] == [[0]], 'not the forward Euler method: %s' % (t,), loc)
            continue
        # AB2: Euler start, then 3/2 F(u_n) - 1/2 F(u_{n-1})
        for c in range(R.ncomp):
            b = lin_coeffs(u[n+1][c], u[n][c], R, c)
            if b is None:
                chk.bad(k, 'component %d: new solution is not old solution + combination of right-hand sides: %s' % (
                    c, X.short(u[n+1][c]-u[n][c], 600)), loc)
                continue
            calls = {}
            for i, co in b.items():
                lag = [m for m in range(n+1) if tuple(u[n-m]) == R.inputs[i]]
                calls[lag[0] if lag else 'x%d' % i] = co
            if n == change:
                # step size changed: any consistent method
                w = sum(calls.values(), X.ZERO)
                chk.eq('%s/changed[%d]' % (k, c), w, h, loc,
                       'after a change of step size the weights of the right-hand sides do not add up to the step')
                continue
            want = {0: h} if n == 0 else {0: h*lift(3)/2, 1: -h/2}
            chk.true('%s/ab2[%d]' % (k, c), calls == want, 'weights %s, required %s' % (
                {q: X.short(v, 80) for q, v in calls.items()}, {q: X.short(v, 80) for q, v in want.items()}), loc)


def oracle_differ(e):
    """Decide dt vs dt2 comparisons as 'clearly different'."""
    def val(a):
        if a.kind == 'ind' and a.name == 'eq0':
            return X.ZERO
        if a.kind == 'ind' and a.name == 'gt0':
            p = a.args[0]
            # |dt2-dt| > tolerance: sign of the coefficient of abs(...)
            s = None
            for m, c in p.t.items():
                if any(X._BYID[i].kind == 'fun' and X._BYID[i].name == 'abs' for i, _ in m):
                    s = c > 0
            if s is None:
                return None
            return X.ONE if s else X.ZERO
        return None
    return decide(e, val)


def decide(e, val):
    for a in list(e.atoms()):
        v = val(a)
        if v is not None:
            e = X.subst_ind(e, a, int(X.const_value(v)))
    c = X.const_value(e)
    return None if c is None else c != 0


def adaptive(chk, key, solver, tstep0, prec, nrej, where):
    """nrej rejected attempts in step `where`, then acceptance; where+2 accepted steps."""
    nst = where + 2
    seen = []       # distinct estimates, in order of appearance

    def oracle(e):
        def val(a):
            if a.kind != 'ind' or a.name not in ('gt0', 'eq0'):
                return None
            p = a.args[0]
            if any(x.name in ('Tend', 't0', 'dt') or str(x.name).startswith('h') for x in p.atoms() if x.kind == 'sym'):
                return None
            if not any(str(x.name).startswith('F') for x in X.all_atoms(p) if x.kind == 'sym'):
                return None
            if a.name == 'eq0':
                return X.ZERO
            est, sgn, one = split_est(p)
            if est is None:
                return None
            if est not in seen:
                seen.append(est)
            k = seen.index(est)
            ones.append(one)
            rejected = where <= k < where + nrej
            return X.ONE if (sgn > 0) == rejected else X.ZERO
        return decide(e, val)
    ones = []
    dt = H.real('dt', 'pos')
    R = simulate(solver, 'BS5_adaptive', nst, tstep0, None, oracle, precision=prec)
    chk.absorb(R.S.it)
    loc = R.steps[0][4]
    chk.true(key + '/attempts', len(seen) == nrej + nst,
             '%d error estimates were tested for %d attempts' % (len(seen), nrej+nst), loc)
    for one in ones:
        chk.true(key + '/threshold', abs(one - 1) < 1e-12, 'a step is rejected when the estimate exceeds %s, not 1' % one, loc)
    u = [R.u0] + [s[0] for s in R.steps]
    tol = H.real('TOL', 'pos')
    h = dt
    att = 0
    for n in range(nst):
        k = '%s/step%d' % (key, n)
        facmax = 2
        if n == where:
            for r in range(nrej):
                if att < len(seen):
                    h = h*factor(seen[att], facmax)
                att += 1
                facmax = 1
        clock(chk, k, R, n, h, loc)
        t = rk_step(chk, k, R, u[n], u[n+1], h, 5, loc)
        if att < len(seen):
            hn = h*factor(seen[att], facmax)
            chk.eq(k + '/next', R.steps[n][1], hn, loc, 'proposed next step size')
            estimate(chk, k + '/estimate', R, u[n], u[n+1], h, seen[att], tol, t, loc)
            loco = X.rank_local(seen[att])
            chk.true(k + '/collective', not loco, 'the error estimate depends on the local size of this rank (%s)' %
                     ', '.join(sorted(a.name for a in loco)), loc)
            h = H.real('h%d' % (n+1), 'pos')
        att += 1
    for vals, at, n, rej in R.fu0:
        want = R.F.get(tuple(at))
        chk.true(key + '/fu0', want is not None and vals == want,
                 'callback does not see the right-hand side of the present solution', loc)
    if nrej:
        chk.true(key + '/rejected-callback', sum(1 for f in R.fu0 if f[3] is True) >= nrej,
                 'rejected step is not reported to the callback', loc)


def ratio(a, b):
    """Constant a/b of two monomials, None if not constant."""
    if len(a.t) != 1 or len(b.t) != 1:
        return None
    (m, c), = a.t.items()
    (n, d), = b.t.items()
    return Fraction(c)/d if m == n else None


def split_est(p):
    """p = k*est + const -> (est as primitive normal form, sign k, threshold)."""
    const = p.t.get((), Fraction(0))
    rest = Expr({m: c for m, c in p.t.items() if m != ()})
    if len(rest.t) != 1:
        return None, None, None
    (m, c), = rest.t.items()
    return Expr({m: Fraction(1)}), (1 if c > 0 else -1), -const/c


def factor(est, facmax):
    """min(facmax, max(0.01, 0.8*est^(-1/5)))"""
    p = lift(Fraction(4, 5))*X.inverse(X.power(est, Fraction(1, 5)))
    return M.extremum('min', [lift(facmax), M.extremum('max', [lift(Fraction(1, 100)), p])])


def estimate(chk, key, R, u0, u1, h, est, tol, t, loc):
    """The estimate contains, for every component, the difference to an
    embedded solution of order 4, scaled by TOL*(1 + max(|u_n|, |u_n+1|))."""
    if t is None:
        return
    A, b, idx = t
    # the last evaluation of the step (argument u_{n+1}) takes part
    last = R.inputs.index(tuple(u1)) if tuple(u1) in R.inputs else None
    if last is None:
        chk.bad(key, 'no right-hand side is evaluated at the new solution', loc)
        return
    inner = [a for a in X.all_atoms(est) if a.kind == 'fun' and a.name == 'abs']
    done = 0
    for c in range(R.ncomp):
        sc = tol + M.extremum('max', [X.func('abs', u0[c], pointwise=True), X.func('abs', u1[c], pointwise=True)])*tol
        inv = X.inverse(sc)
        cands = []
        for a in inner:
            q = lin_coeffs(a.args[0], X.ZERO, R, c)
            if q:
                cands.append((q, {i: ratio(co, h*inv) for i, co in q.items()}))
        if not cands:
            continue
        done += 1
        good = [v for q, v in cands if None not in v.values()]
        if not good:
            chk.bad('%s[%d]' % (key, c), 'error is not scaled by TOL*(1+max(|u_n|,|u_n+1|)): weight %s' % (
                X.short(list(cands[0][0].values())[0], 400)), loc)
        else:
            vals = good[0]
            ids = idx + ([last] if last not in idx else [])
            Ax = [[Fraction(rational(lin_coeffs(R.inputs[i][c], u0[c], R, c).get(j, X.ZERO), h)) for j in ids] for i in ids]
            be = [(Fraction(b[idx.index(i)]) if i in idx else Fraction(0)) - vals.get(i, 0) for i in ids]
            p = order(Ax, be)
            if p < 4:
                be2 = [(Fraction(b[idx.index(i)]) if i in idx else Fraction(0)) + vals.get(i, 0) for i in ids]
                p = max(p, order(Ax, be2))
            chk.true('%s[%d]' % (key, c), p >= 4 and any(vals.values()),
                     'embedded solution has order %d, 4 required' % p, loc)
    if done < R.ncomp:
        chk.unknown(key, 'only %d of %d components recognised in the estimate' % (done, R.ncomp), loc)
