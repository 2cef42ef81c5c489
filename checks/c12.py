"""C12: the time loop of spectralDNS.solve."""
from .common import *  # noqa

RULE = ('spectralDNS.solve is abstractly interpreted for every solver with a stub integrator that gives the state fresh '
        'symbols; the order and arguments of all externally visible actions (step, callback, output, end-of-step hook, '
        'final callback, closing of files) and the symbolic values of t, tstep and dt at each of them are compared with the '
        'contract; the loop guard and the shortening of the last step are decided by the sign of linear forms in t, dt, T.')
MINIMUM = 80


def run(chk):
    for name in ALL_SOLVERS:
        for n in (0, 1, 3):
            with chk.guard('%s/steps%d' % (name, n)):
                loop(chk, '%s/steps%d' % (name, n), name, n, None)
        with chk.guard(name + '/stop'):
            loop(chk, name + '/stop', name, 3, 2)
        with chk.guard(name + '/stop-adaptive'):
            loop(chk, name + '/stop-adaptive', name, 3, 2, dts=True)
        with chk.guard(name + '/guard'):
            guard(chk, name + '/guard', name)
        with chk.guard(name + '/adaptive'):
            loop(chk, name + '/adaptive', name, 3, None, dts=True)
        with chk.guard(name + '/reselect'):
            reselect(chk, name + '/reselect', name)
        with chk.guard(name + '/profile'):
            loop(chk, name + '/profile', name, 2, None, prof=True)
    for name in ('NS', 'VV', 'MHD', 'NS2D', 'Bq2D'):
        with chk.guard(name + '/hit-T'):
            hit(chk, name + '/hit-T', name)
        with chk.guard(name + '/hit-T/numbers'):
            hit_numbers(chk, name + '/hit-T', name)
    with chk.guard('get_solver'):
        solver_setup(chk)


def loop(chk, key, name, nsteps, stop, dts=False, prof=False):
    S = load_solver(name, make_profile=1 if prof else 0)
    it = S.it
    H.stale_all(S)
    log = []
    d = [H.real('h%d' % i, 'pos') for i in range(6)] if dts else None
    stub_integrator(S, log, d)
    P = S.params.attrs
    fobj = S.c['hdf5file']
    real_close = it.get_attr(fobj, 'close', None)

    def rec(what, ret=None):
        def f(it_, a, k, n):
            ctx = a[0] if a else None
            log.append((what, ctx is S.ctx, dict(t=P['t'], tstep=P['tstep'], dt=P['dt']),
                        [list(H.cells(q)) for q in primary(S)], a, k, list(it.ctrl)))
            if what == 'end_of_tstep':
                r = bool(stop and P['tstep'] == stop)
                return int(r) if dts else r   # any true value ends the run
            return ret
        return Builtin(what, f)
    for w in ('update', 'end_of_tstep', 'regression_test'):
        S.solver.env[w] = rec(w)
    S.solver.env['create_profile'] = rec('create_profile', ADict())
    fobj.attrs['update'] = rec('output')

    def close(it_, a, k, n):
        log.append(('close', None, dict(t=P['t'], tstep=P['tstep'], dt=P['dt']), None, a, k, list(it.ctrl)))
        return it.call(real_close, a, k, n)
    fobj.attrs['close'] = Builtin('close', close)
    # the end time lies half a step beyond the steps to be taken
    unit = S.vals['dt']
    sub = {'h%d' % i: unit*lift(Fraction(8 + i, 8)) for i in range(6)} if d else {}
    sizes = [unit*lift(Fraction(8 + i, 8)) if d else unit for i in range(nsteps+1)]
    end = S.vals['t'] + sizes[nsteps]*lift(Fraction(1, 2))
    for h in sizes[:nsteps]:
        end = end + h
    if d and nsteps == 0:
        end = S.vals['t'] + unit*lift(Fraction(1, 2))
    sub['Tend'] = end
    clock = time_oracle(sub)

    def oracle(e):
        return clock(e) if 'Tend' in {a.name for a in X.all_atoms(e) if a.kind == 'sym'} else None
    it.config['oracle'] = oracle
    want_dt_end = P['dt']
    if nsteps:
        # the file was opened by the first output
        fobj.attrs['cfile'] = Obj('F', f=None, close=Builtin('c', lambda *a: log.append(('cclose',))))
        fobj.attrs['wfile'] = Obj('F', f=None, close=Builtin('c', lambda *a: log.append(('wclose',))))
    t = P['t']
    f = S.top.env.get('solve')
    it.call(f, [S.solver, S.ctx], {}, None)
    chk.absorb(it, suspects=False)
    taken = min(nsteps, stop or nsteps)
    # the contract
    ev = [e for e in log if e[0] not in ('create_profile', 'cclose', 'wclose')]
    kinds = [e[0] for e in ev]
    want = ['step', 'update', 'output', 'end_of_tstep']*taken + ['regression_test', 'close']
    chk.true(key + '/sequence', kinds == want, 'actions %s, required %s' % (kinds, want), 'spectralDNS/__init__.py (solve)')
    if kinds != want:
        return
    if prof:
        chk.true(key + '/profile', [e[0] for e in log].count('create_profile') == 1, 'profile is not created once at the end')
    for i in range(taken):
        h = (d[i] if d else want_dt_end)
        t = t + h
        for e in ev[4*i+1:4*i+4]:
            what = '%s/%d/%s' % (key, i+1, e[0])
            chk.eq(what + '/t', e[2]['t'], t, None, 'simulation time seen by ' + e[0])
            chk.eq(what + '/tstep', e[2]['tstep'], i+1, None, 'step counter seen by ' + e[0])
            chk.eq(what + '/dt', e[2]['dt'], d[i+1] if d else want_dt_end, None, 'step size for the next step')
            if e[0] != 'output':
                chk.true(what + '/context', e[1], '%s is not given the context' % e[0])
            else:
                chk.true(what + '/context', e[4] and e[4][0] is S.params and e[5].get('work') is S.c.get('work') and
                         set(e[5]) == set(S.c), 'output is not given the parameters and the context')
            ok = all(isinstance(x, Expr) and '@%d.' % (i+1) in str(x) for q in e[3] for x in q)
            chk.true(what + '/solution', ok, '%s does not see the new solution' % e[0])
            chk.true(what + '/always', not e[6], '%s is conditional: %s' % (e[0], e[6]))
    fin = ev[-2]
    chk.true(key + '/final/context', fin[1], 'regression_test is not given the context')
    chk.eq(key + '/final/dt', P['dt'], want_dt_end, None, 'the step size parameter is not restored after the run')
    chk.eq(key + '/final/t', P['t'], t, None, 'time after the run')
    chk.eq(key + '/final/tstep', P['tstep'], taken, None, 'step counter after the run')


def reselect(chk, key, name):
    """Every run uses the convection form and the integrator selected at its start."""
    S = load_solver(name)
    H.stale_all(S)
    it, P = S.it, S.params.attrs
    nop = Builtin('n', lambda *a: None)
    S.c['hdf5file'] = Obj('F', update=nop, close=nop)
    log, seen = [], []

    def conv_of(it_, a, k, n):
        form = a[0] if a else k.get('convection')
        return Builtin('conv', lambda *q: seen.append(form))

    def integ_of(it_, a, k, n):
        which = P['integrator']

        def step(it2, a2, k2, n2):
            del seen[:]
            it2.call(it2.get_attr(S.solver, 'conv', None), [], {}, n2)
            log.append((which,) + tuple(seen))
            return (S.c['u'], P['dt'], P['dt'])
        return Builtin('integrate', step)
    S.solver.env['getConvection'] = Builtin('getConvection', conv_of)
    S.solver.env['getintegrator'] = Builtin('getintegrator', integ_of)
    for w in ('update', 'end_of_tstep', 'regression_test'):
        S.solver.env[w] = nop
    t0, dt = P['t'], P['dt']
    want = []
    for form, integ in (('A', 'X'), ('B', 'X'), ('B', 'Y'), ('A', 'Y')):
        P.update(convection=form, integrator=integ, t=t0, dt=dt)
        it.config['oracle'] = time_oracle({'Tend': t0 + dt*lift(Fraction(3, 2))})
        it.call(S.top.env['solve'], [S.solver, S.ctx], {}, None)
        want.append((integ, form))
    chk.true(key, log == want, 'the runs use %s, selected were %s' % (log, want), 'spectralDNS/__init__.py (solve)')
    chk.absorb(it, suspects=False)


def guard(chk, key, name):
    """Continues iff t+dt <= T up to round-off."""
    S = load_solver(name)
    H.stale_all(S)
    log = []
    stub_integrator(S, log)
    seen = []

    def mark(what):
        return Builtin(what, lambda *a: seen.append(what))
    S.c['hdf5file'] = Obj('F', update=mark('output'), close=mark('close'))
    S.solver.env['end_of_tstep'] = mark('end_of_tstep')
    S.solver.env['regression_test'] = mark('regression_test')
    T0, dt = S.vals['t'], S.vals['dt']
    P = S.params.attrs
    start = dict(t=P['t'], dt=P['dt'], tstep=P['tstep'])
    tiny = lift(Fraction(1, 10**14))
    # time left in units of dt, round-off, steps required
    cases = [(Fraction(a), 0, n) for a, n in ((0, 0), (Fraction(1, 2), 0), (Fraction(99, 100), 0), (Fraction(9999, 10000), 0), (Fraction(1, 10000), 0), (1, 1), (Fraction(101, 100), 1),
                                              (Fraction(199, 100), 1), (2, 2), (3, 3), (Fraction(7, 2), 3))]
    cases += [(Fraction(a), s, a) for a in (1, 2, 3) for s in (1, -1)]
    def attempt(lag, eps, want, kk, und):
        del log[:]
        del seen[:]
        more = []

        def upd(it, a, k, n):
            seen.append('update')
            if len(log) > want + 1:
                more.append(1)
                raise H.StopRun()
        S.solver.env['update'] = Builtin('update', upd)
        try:
            S.it.call(S.top.env['solve'], [S.solver, S.ctx], {}, None)
        except H.StopRun:
            pass
        if und:
            chk.unknown(kk, 'guard not decided: %s' % X.short(und[0], 200))
            return
        chk.true(kk, len(log) == want, 'with %s dt left%s %s steps are taken, not %d' % (
            lag, ' up to round-off' if eps else '', 'more than %d' % want if more else len(log), want), 'spectralDNS/__init__.py (solve)')
        if len(log) == want:
            must = ['update', 'output', 'end_of_tstep']*want + ['regression_test', 'close']
            chk.true(kk + '/actions', seen == must, 'with %s dt left the actions are %s, required %s' % (lag, seen, must),
                     'spectralDNS/__init__.py (solve)')

    for lag, eps, want in cases:
        P.update(start)
        clock = time_oracle({'Tend': T0 + dt*lift(lag) + tiny*eps})
        und = []

        def oracle(e):
            if 'Tend' not in {a.name for a in X.all_atoms(e) if a.kind == 'sym'}:
                return None
            v = clock(e)
            if v is None:
                und.append(e)
            return v
        S.it.config['oracle'] = oracle
        attempt(lag, eps, want, '%s/left=%sdt%s' % (key, lag, {0: '', 1: '+', -1: '-'}[eps]), und)
    # the same with numbers: small and large steps
    S.it.config['oracle'] = None
    for h in (Fraction(1, 10**6), Fraction(1, 8), Fraction(50)):
        for lag, eps, want in cases:
            P.update(start)
            P.update(t=lift(h), dt=lift(h), T=lift(h + h*lag + eps*Fraction(1, 10**14)))
            attempt(lag, eps, want, '%s/dt=%s/left=%sdt%s' % (key, h, lag, {0: '', 1: '+', -1: '-'}[eps]), [])
    # whatever the parameters of the output, of the display and of the display's timing are
    every = ('write_result', 'checkpoint', 'plot_step', 'compute_energy', 'print_divergence_progress', 'compute_spectrum')
    old = {q: P[q] for q in every if q in P}
    for first in (0, 1, 6):
        for n in (1, 2, 3, 7):
            for lag in (Fraction(2), Fraction(3), Fraction(7, 2)):
                P.update(start)
                P.update(t=lift(Fraction(1, 4)), dt=lift(Fraction(1, 8)), T=lift(Fraction(1, 4) + lag/8), tstep=first)
                P.update({q: n for q in every})
                attempt(lag, 0, int(lag), '%s/tstep=%d/every=%d/left=%sdt' % (key, first, n, lag), [])
                chk.true('%s/tstep=%d/every=%d/left=%sdt/tstep' % (key, first, n, lag), P['tstep'] == first + int(lag),
                         'step counter %s after %d steps from %d' % (P['tstep'], int(lag), first), 'spectralDNS/__init__.py (solve)')
    for q in every:
        P.pop(q, None)
    P.update(old)


def hit(chk, key, name):
    """End-of-step hook of the explicit solvers: ends at T, shortens the last step."""
    dt, T = H.real('dt', 'pos'), H.real('Tend', 'pos')
    for lag in (Fraction(0), Fraction(1), Fraction(1, 2), Fraction(1, 100), Fraction(1, 10000), Fraction(9999, 10000),
                    Fraction(10001, 10000), Fraction(100001, 100000), Fraction(99999, 100000), Fraction(3, 2), Fraction(5)):
        S = load_solver(name)
        setup_state(S)
        before = [list(H.cells(a)) for a in primary(S)]
        S.it.config['oracle'] = time_oracle({'t0': T - dt*lift(lag)})
        k = '%s/left=%sdt' % (key, lag)
        r = S.it.call(S.it.get_attr(S.solver, 'end_of_tstep', None), [S.ctx], {}, None)
        chk.absorb(S.it, suspects=False)
        r = S.it.truth(r)
        if lag == 0:
            chk.true(k + '/ends', r is True, 'the run does not end at T')
            continue
        chk.true(k + '/continues', r is False, 'the run ends before T')
        after = S.params.attrs['dt']
        want = dt*lift(min(lag, Fraction(1)))
        got = X.substitute(after, lambda a: T - dt*lift(lag) if a.kind == 'sym' and a.name == 't0' else None)
        chk.eq(k + '/dt', got, want, None, 'next step size with %s dt left' % lag)
        chk.true(k + '/state', [list(H.cells(a)) for a in primary(S)] == before, 'the state is modified')


def hit_numbers(chk, key, name):
    for h in (Fraction(1, 10**6), Fraction(1, 8), Fraction(50)):
        for lag in (Fraction(0), Fraction(1), Fraction(1, 2), Fraction(1, 100), Fraction(1, 10000), Fraction(9999, 10000),
                    Fraction(10001, 10000), Fraction(100001, 100000), Fraction(99999, 100000), Fraction(3, 2), Fraction(5)):
            S = load_solver(name)
            setup_state(S)
            P = S.params.attrs
            P.update(t=lift(h), dt=lift(h), T=lift(h + h*lag))
            k = '%s/dt=%s/left=%sdt' % (key, h, lag)
            r = S.it.truth(S.it.call(S.it.get_attr(S.solver, 'end_of_tstep', None), [S.ctx], {}, None))
            chk.absorb(S.it, suspects=False)
            chk.true(k + '/ends', r is (lag == 0), 'the run %s with %s left, dt=%s' % ('ends' if r is True else 'goes on', h*lag, h))
            if lag:
                chk.eq(k + '/dt', P['dt'], lift(h*min(lag, Fraction(1))), None, 'next step size')


def solver_setup(chk):
    for mesh, solvers in (('triplyperiodic', ('NS', 'VV', 'MHD')), ('doublyperiodic', ('NS2D', 'Bq2D')),
                          ('channel', ('KMM', 'KMMr', 'KMMRK3', 'KMM_RB', 'KMMRK3_RB', 'Coupled', 'CoupledRK3'))):
        for s in solvers:
            for given in ((), ('update',), ('regression_test',), ('additional_callback',),
                          ('update', 'regression_test', 'additional_callback')):
                key = 'get_solver/%s/%s' % (s, '+'.join(given) or 'none')
                with chk.guard(key):
                    it = H.new_interp(0, 2 if mesh == 'doublyperiodic' else 3)
                    top = it.import_module('spectralDNS')
                    cfg = it.import_module('spectralDNS.config')
                    cbs = {g: Builtin(g, lambda *a: None) for g in given}
                    args = [s]
                    kw = dict(cbs)
                    kw['mesh'] = mesh
                    kw['parse_args'] = args
                    r = it.call(top.env['get_solver'], [], kw, None)
                    chk.absorb(it, suspects=False)
                    mod = it.import_module('spectralDNS.solvers.' + s)
                    chk.true(key + '/module', r is mod, 'get_solver does not return the selected solver')
                    chk.true(key + '/link', cfg.env.get('solver') is mod, 'config.solver is not the selected solver')
                    for g in ('update', 'regression_test', 'additional_callback'):
                        v = mod.env.get(g)
                        chk.true(key + '/' + g, (v is cbs[g]) if g in cbs else v is not None,
                                 'callback %s is not installed' % g)
