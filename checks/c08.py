"""C08: one time step of the three stage KMMRK3 channel solver."""
from .common import *  # noqa

RULE = ('spectralDNS.solve is abstractly interpreted for two time steps of KMMRK3 with symbolic solution, convection and '
        'forcing; at every Runge-Kutta stage the normal forms of the velocity components and of the wall normal vorticity '
        'must equal the low storage scheme of Spalart et al. with its published coefficients for the velocity-vorticity '
        'system, including the mean mode; stages are cut by renaming verified values.')
MINIMUM = 60
Fr = Fraction
A = (Fr(8, 15), Fr(5, 12), Fr(3, 4))
B = (Fr(0), Fr(-17, 60), Fr(-5, 12))


def run(chk):
    for quad in ('GC', 'GL'):
        for mask in (True, False):
            for dealias in ('2/3-rule', '3/2-rule', 'None'):
                for rank in (0, 1):
                    for dec in ('slab', 'pencil'):
                        key = 'KMMRK3/%s/%s/%s/rank%d/%s' % (quad, dealias, 'mask' if mask else 'nomask', rank, dec)
                        with chk.guard(key):
                            steps(chk, key, quad, mask, dealias, rank, dec)


def steps(chk, key, quad, mask, dealias, rank, dec):
    def attempt(sub, stub):
        S = load_solver('KMMRK3', Dquad=quad, Bquad=quad, mask_nyquist=mask, dealias=dealias, rank=rank, decomposition=dec)
        setup_state(S)
        C = SP.Channel(0, dealias, quad, quad, rank)
        nu, dt, Sk = S.vals['nu'], S.vals['dt'], S.force['Sk']
        st = {'u': list(S.state[0]), 'g': S.state[1][0], 'Hp': [lift(0)]*3}
        p = primary(S)

        def verify(n):
            """State after stage n (counted from 1)."""
            if len(conv.calls) != n:
                sub.bad('%s/stage%d/conv' % (key, n), 'convection evaluated %d times in %d stages' % (len(conv.calls), n))
                raise H.StopRun()
            for j, (x, y) in enumerate(zip(conv.calls[-1][0], st['u'] + [st['g']])):
                sub.eq('%s/stage%d/conv-arg%d' % (key, n, j), x, y, None)
            Hn = conv.calls[-1][1]
            a, b = lift(A[(n-1) % 3]), lift(B[(n-1) % 3])
            m = C.mask if mask else lift(1)
            H0 = [m*(a*x + b*y)/(a+b) for x, y in zip(Hn, st['Hp'])]
            wu, wg = SP.kmm_step(C, st['u'], st['g'], H0, Sk, nu, (a+b)*dt)
            for j in range(3):
                sub.eq('%s/stage%d/u%d' % (key, n, j), H.cells(p[0])[j], wu[j], H.prov(p[0], j))
            sub.eq('%s/stage%d/g' % (key, n), H.cells(p[1])[0], wg, H.prov(p[1], 0))
            st['u'] = rename(S, p[0], 'u@%d.' % n)
            st['g'] = rename(S, p[1], 'g@%d.' % n)[0]
            st['Hp'] = Hn

        def before(ncalls):
            if ncalls % 3:
                verify(ncalls)
        conv = StubConv(S, before)

        def upd(n):
            verify(3*n)
        run_steps(S, 3, upd)
        return S
    both_routes(chk, key, attempt, (True,))
