"""C10: time steps of the Rayleigh-Benard solvers."""
from .common import *  # noqa
from .c08 import A, B

RULE = ('spectralDNS.solve is abstractly interpreted for three steps of KMM_RB and two of KMMRK3_RB with symbolic solution, '
        'temperature, convection, forcing and history; at every step or stage the normal forms of velocity, wall normal vorticity '
        'and temperature must equal the implicit step of the Boussinesq equations of a heated channel; stages are cut by '
        'renaming verified values.')
MINIMUM = 60
BC = (1, 0)


def run(chk):
    for name in ('KMM_RB', 'KMMRK3_RB'):
        for quad in ('GC', 'GL'):
            for mask in (True, False):
                for dealias in ('2/3-rule', '3/2-rule', 'None'):
                    for rank in (0, 1):
                        for dec in ('slab', 'pencil'):
                            key = '%s/%s/%s/%s/rank%d/%s' % (name, quad, dealias, 'mask' if mask else 'nomask', rank, dec)
                            with chk.guard(key):
                                steps(chk, key, name, quad, mask, dealias, rank, dec)


def no_bc(e):
    """The boundary values of the temperature are nonzero in the mean mode only,
    where the wall normal velocity and K2 are zero: they cannot act on it."""
    def f(a):
        if a.kind == 'at' and any(ax == 0 and i in (-1, -2) for ax, i in a.args[1]):
            return lift(0)
        return None
    return X.substitute(e, f)


def steps(chk, key, name, quad, mask, dealias, rank, dec):
    rk3 = name == 'KMMRK3_RB'
    per = 3 if rk3 else 1

    def attempt(sub, route):
        S = load_solver(name, Dquad=quad, Bquad=quad, mask_nyquist=mask, dealias=dealias, rank=rank, decomposition=dec)
        setup_state(S)
        C = SP.Channel(0, dealias, quad, quad, rank)
        nu, dt, Sk = S.vals['nu'], S.vals['dt'], S.force['Sk']
        kappa = H.real('kappa', 'pos')
        st = {'u': list(S.state[0]), 'g': S.state[1][0], 'T': S.state[2][0], 'Hp': [lift(0)]*3, 'Np': lift(0)}
        if not rk3:
            one_level(S, ('U_hat0',), 0)
            one_level(S, ('phi_hat0',), 2)
            st['Tp'] = H.name_cells(S.c['phi_hat1'], 'phio')[0]
            st['Hp'] = H.name_cells(S.c['H_hat1'], 'Hold')
        p = primary(S)
        m = C.mask if mask else lift(1)

        def verify(n):
            if len(conv.calls) != n:
                sub.bad('%s/stage%d/conv' % (key, n), 'convection evaluated %d times in %d stages' % (len(conv.calls), n))
                raise H.StopRun()
            for j, (x, y) in enumerate(zip(conv.calls[-1][0], st['u'] + [st['g']])):
                sub.eq('%s/stage%d/conv-arg%d' % (key, n, j), x, y, None)
            Hn = conv.calls[-1][1]
            T = st['T']
            if rk3:
                a, b = lift(A[(n-1) % 3]), lift(B[(n-1) % 3])
                gam = a + b
                Hx = [m*(a*x + b*y)/gam for x, y in zip(Hn, st['Hp'])]
                buoy = T
                Nn = m*advection_std(C, st['u'], T)
                N = (a*Nn + b*st['Np'])/gam
                st['Np'] = Nn
            else:
                gam = lift(1)
                Hx = [m*(3*x - y)*SP.HALF for x, y in zip(Hn, st['Hp'])]
                buoy = (3*T - st['Tp'])*SP.HALF
                N = m*advection_div(C, st['u'], buoy)
                st['Tp'] = T
            tau = gam*dt
            Hx[0] = Hx[0] + buoy
            wu, wg = SP.kmm_step(C, st['u'], st['g'], Hx, Sk, nu, tau)
            r = 2*X.inverse(kappa*tau)
            rhs = C.mat('D', 'D', 2, T) + (r - C.K2)*C.mat('D', 'D', 0, T) - 2*X.inverse(kappa)*N
            wT = C.helmholtz(lift(-1), C.K2 + r, rhs)
            for j in range(3):
                g = H.cells(p[0])[j]
                sub.eq('%s/stage%d/u%d' % (key, n, j), no_bc(g) if isinstance(g, Expr) else g, wu[j], H.prov(p[0], j))
            sub.eq('%s/stage%d/g' % (key, n), H.cells(p[1])[0], wg, H.prov(p[1], 0))
            sub.eq('%s/stage%d/T' % (key, n), H.cells(p[2])[0], wT, H.prov(p[2], 0))
            st['u'] = rename(S, p[0], 'u@%d.' % n)
            st['g'] = rename(S, p[1], 'g@%d.' % n)[0]
            st['T'] = rename(S, p[2], 'T@%d.' % n)[0]
            st['Hp'] = Hn

        def before(ncalls):
            if ncalls % per:
                verify(ncalls)
        conv = StubConv(S, before)
        run_steps(S, 3 if rk3 else 5, lambda n: verify(per*n))
        return S
    both_routes(chk, key, attempt, (True,))


def advection_div(C, u, T):
    """Galerkin form of div(u T)."""
    t = C.bwd('D', T, bc=BC)
    up = [C.bwd(k, x) for k, x in zip(SP.channel_kinds(C), u)]
    n = C.mat('D', 'B', 1, C.fwd('B', t*up[0]))
    for i in (1, 2):
        n = n + C.mat('D', 'D', 0, SP.IM*C.K[i]*C.fwd('D', t*up[i]))
    return n


def advection_std(C, u, T):
    """Galerkin form of u.grad(T)."""
    up = [C.bwd(k, x) for k, x in zip(SP.channel_kinds(C), u)]
    R = ((0, 0),)
    d = X.region_ind(R)
    diag = X.sym('diag%s[0][0]' % (C.key('T', 0, 'T', 0),), (), ('real',))
    lo, hi = X.restrict(T, ((0, -2),)), X.restrict(T, ((0, -1),))
    dT = C.inv('T', C.mat('T', 'D', 1, T) + d*SP.HALF*diag*(hi - lo))
    n = up[0]*C.bwd('T', dT)
    for i in (1, 2):
        n = n + up[i]*C.bwd('D', SP.IM*C.K[i]*T)
    return C.mat('D', 'D', 0, C.fwd('D', n))
