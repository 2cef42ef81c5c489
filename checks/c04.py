"""C04: velocity (and magnetic field) stay divergence free."""
from .common import *  # noqa
from . import c09

RULE = ('The divergence of the normal form of every evaluated rate of change (periodic solvers) must be -nu k^2 times the divergence '
        'of the solution plus the divergence of the source, for any field; every integrator must advance all components by the '
        'same combination; after every implicit step or stage of a channel solver the normal form of the discrete divergence '
        'must vanish (velocity-vorticity solvers), or continuity must be a row of the block system solved (coupled solvers).')
MINIMUM = 60
FORMS = {'NS': ('Vortex', 'Standard', 'Divergence', 'Skewed'), 'VV': ('Vortex',), 'MHD': ('Divergence',), 'NS2D': ('Vortex',),
         'Bq2D': ('Vortex',)}


def run(chk):
    for dealias in ('2/3-rule', '3/2-rule', 'None'):
        for mask in (True, False):
            m = 'mask' if mask else 'nomask'
            for dec in ('slab', 'pencil'):
                for name, forms in FORMS.items():
                    if dec == 'pencil' and name in ('NS2D', 'Bq2D'):
                        continue
                    for conv in forms:
                        key = '%s/%s/%s/%s/%s' % (name, conv, dealias, m, dec)
                        with chk.guard(key):
                            both_routes(chk, key, lambda sub, route: periodic(
                                sub, key, name, route, convection=conv, dealias=dealias, mask_nyquist=mask, decomposition=dec))
                for rank in (0, 1):
                    for quad in ('GC', 'GL'):
                        for name in ('KMM', 'KMMr', 'KMMRK3', 'KMM_RB', 'KMMRK3_RB', 'Coupled', 'CoupledRK3'):
                            key = '%s/%s/%s/%s/rank%d/%s' % (name, quad, dealias, m, rank, dec)
                            with chk.guard(key):
                                if name.startswith('Coupled'):
                                    coupled(chk, key, name, quad, mask, dealias, rank, dec)
                                else:
                                    both_routes(chk, key, lambda sub, route: channel(
                                        sub, key, name, quad, mask, dealias, rank, dec), (True,))
    for name in FORMS:
        for integ in ('ForwardEuler', 'RK4', 'AB2', 'BS5_fixed', 'BS5_adaptive'):
            for prec in ('double', 'single') if chk.thorough else ('double',):
                key = '%s/%s/%s' % (name, integ, prec)
                with chk.guard(key):
                    combination(chk, key, name, integ, prec)


def div(K, u):
    return sum((k*x for k, x in zip(K, u)), lift(0))


def periodic(sub, key, name, route, **over):
    S = H.load(name, **over)
    setup_state(S)
    F = SP.Fourier(S.ndim, over['dealias'])
    q = S.state[0]
    n = 3 if S.ndim == 3 else 2
    if route:
        r = tendency_protocol(S)
        if not isinstance(r, Arr):
            raise AnalysisError('ComputeRHS returned %r' % (r,))
        got, pr = S.it.arr_get(r), H.prov(r, 0)
    else:
        got, pr = tendency_euler(S)
        pr = pr[0]
    if any(isinstance(e, Top) for e in got):
        raise AnalysisError('tendency unknown')
    src = S.force.get('Source') if name in ('NS', 'VV', 'NS2D') else None
    parts = [(0, 'nu')] + ([(3, 'eta')] if name == 'MHD' else [])
    for off, visc in parts:
        want = -S.vals[visc]*F.K2*div(F.K, q[off:off+n])
        if src:
            want = want + div(F.K, src[:n])
        sub.eq('%s/div%d' % (key, off), div(F.K, got[off:off+n]), want, pr,
               'the rate of change has a divergence (difference to -nu k^2 div u + div S)')
    if name == 'VV':
        r = S.it.call(S.it.get_attr(S.solver, 'get_velocity', None), [], dict(S.c), None)
        # the velocity of any vorticity field: its spectral coefficients
        cells = [spectral(e) for e in S.it.arr_get(r)]
        sub.eq('%s/velocity' % key, div(F.K, cells), lift(0), H.prov(r, 0), 'the velocity has a divergence')
    return S


def spectral(e):
    """Argument of an inverse transform."""
    def one(a):
        if a.kind == 'lin' and a.args[0][0] == 'bwd':
            return a.args[2]
        return None
    if isinstance(e, Top):
        raise AnalysisError(e.why)
    return X.substitute(e, one)


def channel(sub, key, name, quad, mask, dealias, rank, dec):
    S = load_solver(name, Dquad=quad, Bquad=quad, mask_nyquist=mask, dealias=dealias, rank=rank, decomposition=dec)
    setup_state(S)
    C = SP.Channel(2 if name == 'KMMr' else 0, dealias, quad, quad, rank)
    for k in HIST.get(name, ()):
        if isinstance(S.c.get(k), Arr):
            H.name_cells(S.c[k], k)
    one_level(S, [k for k in ('U_hat0',) if isinstance(S.c.get(k), Arr)], 0)
    if isinstance(S.c.get('phi_hat0'), Arr):
        one_level(S, ('phi_hat0',), 2)
    p = primary(S)
    per = 3 if 'RK3' in name else 1
    seen = []

    def verify(n):
        if n in seen:
            return
        seen.append(n)
        u = H.cells(p[0])
        if any(isinstance(e, Top) for e in u):
            raise AnalysisError('solution unknown')
        w = C.axis
        d = SP.IM*(C.K[C.a]*u[C.a] + C.K[C.b]*u[C.b]) + C.inv('D', C.mat('D', 'B', 1, u[w]))
        z = X.cond('eq0', C.K2)
        sub.eq('%s/stage%d/div' % (key, n), d*(1-z), lift(0), H.prov(p[0], C.a), 'the velocity has a divergence')
        if rank == 0:
            sub.eq('%s/stage%d/mean' % (key, n), X.restrict(u[w], C.region), lift(0), H.prov(p[0], w),
                   'mean wall normal velocity')
        for a, nm in zip(p, ('u', 'g', 'T')):
            rename(S, a, '%s@%d.' % (nm, n))

    def before(ncalls):
        if ncalls:
            verify(ncalls)
    StubConv(S, before)
    run_steps(S, 2, lambda n: verify(per*n))
    return S


def coupled(chk, key, name, quad, mask, dealias, rank, dec):
    sub = Check('tmp')
    c09.steps(sub, key, name, quad, mask, dealias, rank, dec)
    chk.functions.update(sub.functions) if hasattr(sub, 'functions') else None
    keep = [o for o in sub.obs if o[1] == 'unknown' or
            any(s in o[0] for s in ('matrix(3,', 'rhs3', '/solution', '/state', '/raise', '/solves'))]
    chk.obs.extend((chk.prefix + o[0], o[1], o[2], o[3]) for o in keep)


def combination(chk, key, name, integ, prec):
    """All components are advanced by the same combination of right-hand sides."""
    S = H.load(name, integrator=integ, convection='Divergence' if name == 'MHD' else 'Vortex', precision=prec)
    setup_state(S)
    calls = []
    ncomp = len(primary(S)[0].idx)
    ax = tuple(range(S.ndim))

    def rhs_hook(it, a, k, n):
        i = len(calls)
        calls.append(i)
        for j, c in enumerate(a[0].idx):
            a[0].store.cells[c] = X.sym('F%d_%d' % (i, j), ax)
        return a[0]
    S.solver.env['ComputeRHS'] = Builtin('ComputeRHS', rhs_hook)
    S.solver.env['end_of_tstep'] = Builtin('end_of_tstep', lambda it, a, k, n: False)
    S.it.config['far'] = True
    S.c['hdf5file'] = Obj('F', update=Builtin('nop', lambda *a: None), close=Builtin('nop', lambda *a: None))
    if integ.endswith('adaptive'):
        # the error estimate is one number for all components
        S.it.config['oracle'] = lambda e: False if any(str(x.name).startswith('F') for x in X.all_atoms(e) if x.kind == 'sym') else None
    out = []
    us = S.state[0]

    def upd(n):
        if not out:
            out.extend(H.cells(primary(S)[0]))
    if integ == 'AB2':
        # second step: previous right-hand side in use
        def upd(n):
            out[:] = H.cells(primary(S)[0])
    H.drive(S, 2 if integ == 'AB2' else 1, upd)
    chk.absorb(S.it, suspects=False)
    if any(isinstance(e, Top) for e in out):
        raise AnalysisError('solution unknown')

    def ren(a, j):
        if a.kind != 'sym':
            return None
        s = str(a.name)
        if a.name == next(iter(us[j].atoms())).name:
            return us[0]
        if s.startswith('F') and s.endswith('_%d' % j):
            return X.sym(s[:-len(str(j))] + '0', ax)
        return None
    for j in range(1, ncomp):
        chk.eq('%s/component%d' % (key, j), X.substitute(out[j], lambda a: ren(a, j)), out[0], H.prov(primary(S)[0], j),
               'components are advanced by different combinations')
    chk.true('%s/depends' % key, bool(calls) and any(str(x.name).startswith('F') for x in X.all_atoms(out[0]) if x.kind == 'sym'),
             'the rate of change is not used')
