"""C07: one time step of the KMM and KMMr channel solvers."""
from .common import *  # noqa

RULE = ('spectralDNS.solve is abstractly interpreted for three time steps of KMM and KMMr with symbolic solution, convection, '
        'forcing and history; the normal forms of all velocity components and of the wall normal vorticity after every step '
        'must equal Crank-Nicolson/Adams-Bashforth for the velocity-vorticity system, including the mean mode.')
MINIMUM = 60


def run(chk):
    for name in ('KMM', 'KMMr'):
        for quad in ('GC', 'GL'):
            for mask in (True, False):
                for dealias in ('2/3-rule', '3/2-rule', 'None'):
                    for rank in (0, 1):
                        for dec in ('slab', 'pencil'):
                            key = '%s/%s/%s/%s/rank%d/%s' % (name, quad, dealias, 'mask' if mask else 'nomask', rank, dec)
                            with chk.guard(key):
                                steps(chk, key, name, quad, mask, dealias, rank, dec)


def steps(chk, key, name, quad, mask, dealias, rank, dec):
    def attempt(sub, stub):
        S = load_solver(name, Dquad=quad, Bquad=quad, mask_nyquist=mask, dealias=dealias, rank=rank, decomposition=dec)
        setup_state(S)
        C = SP.Channel(2 if name == 'KMMr' else 0, dealias, quad, quad, rank, 'Kx' if name == 'KMMr' else 'K')
        conv = StubConv(S) if stub else None
        one_level(S, ('U_hat0',), 0)
        Hp = H.name_cells(S.c['H_hat1'], 'Hold')
        st = {'u': list(S.state[0]), 'g': S.state[1][0], 'Hp': Hp}
        nu, dt, Sk = S.vals['nu'], S.vals['dt'], S.force['Sk']

        def upd(n):
            if stub:
                if len(conv.calls) != n:
                    sub.bad('%s/step%d/conv' % (key, n), 'convection evaluated %d times in %d steps' % (len(conv.calls), n))
                    raise H.StopRun()
                for j, (x, y) in enumerate(zip(conv.calls[-1][0], st['u'] + [st['g']])):
                    sub.eq('%s/step%d/conv-arg%d' % (key, n, j), x, y, None)
                Hn = conv.calls[-1][1]
            else:
                Hn = SP.channel_conv(C, st['u'], st['g'], 'Vortex')
            H0 = [(C.mask if mask else lift(1))*(3*x - y)*SP.HALF for x, y in zip(Hn, st['Hp'])]
            wu, wg = SP.kmm_step(C, st['u'], st['g'], H0, Sk, nu, dt)
            p = primary(S)
            for j in range(3):
                sub.eq('%s/step%d/u%d' % (key, n, j), H.cells(p[0])[j], wu[j], H.prov(p[0], j))
            sub.eq('%s/step%d/g' % (key, n), H.cells(p[1])[0], wg, H.prov(p[1], 0))
            # cut: the next step starts from fresh symbols
            st['u'] = rename(S, p[0], 'u@%d.' % n)
            st['g'] = rename(S, p[1], 'g@%d.' % n)[0]
            st['Hp'] = Hn
        run_steps(S, 5 if stub else 2, upd)
        return S
    both_routes(chk, key, attempt)
