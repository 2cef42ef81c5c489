"""C09: time steps of the coupled velocity-pressure channel solvers."""
from .common import *  # noqa
from .c08 import A, B

RULE = ('spectralDNS.solve is abstractly interpreted for three steps of Coupled and two of CoupledRK3 with symbolic solution, '
        'convection and forcing; at every step or stage exactly one block system is solved, whose matrix (term by term) and '
        'right-hand side must, row by row up to a common factor, be those of the implicit Navier-Stokes step, and the '
        'solution of which is the new state.')
MINIMUM = 60


def run(chk):
    for name in ('Coupled', 'CoupledRK3'):
        for quad in ('GC', 'GL'):
            for mask in (True, False):
                for dealias in ('2/3-rule', '3/2-rule', 'None'):
                    for rank in (0, 1):
                        for dec in ('slab', 'pencil'):
                            key = '%s/%s/%s/%s/rank%d/%s' % (name, quad, dealias, 'mask' if mask else 'nomask', rank, dec)
                            with chk.guard(key):
                                steps(chk, key, name, quad, mask, dealias, rank, dec)


def system(C, nu, tau, gam):
    """(test row, test kind, trial column, trial kind, derivative) -> coefficient."""
    t = {}
    f = 2*X.inverse(nu)/gam
    for i in range(3):
        t[(i, 'D', i, 'D', 0)] = 2*X.inverse(nu*tau) + C.K2
        t[(i, 'D', i, 'D', 2)] = lift(-1)
    t[(0, 'D', 3, 'T', 1)] = t[(3, 'T', 0, 'D', 1)] = f
    for i in (1, 2):
        t[(i, 'D', 3, 'T', 0)] = t[(3, 'T', i, 'D', 0)] = f*SP.IM*C.K[i]
    return t


def steps(chk, key, name, quad, mask, dealias, rank, dec):
    rk3 = name == 'CoupledRK3'

    def attempt(sub, route):
        S = load_solver(name, Dquad=quad, Bquad=quad, mask_nyquist=mask, dealias=dealias, rank=rank, decomposition=dec)
        setup_state(S)
        C = SP.Channel(0, dealias, quad, quad, rank)
        nu, dt, Sk = S.vals['nu'], S.vals['dt'], S.force['Sk']
        st = {'u': list(S.state[0][:3]), 'Hp': None}
        if not rk3:
            one_level(S, ('UP_hat0',), 0)
            st['Hp'] = H.name_cells(S.c['H_hat1'], 'Hold')
        else:
            st['Hp'] = [lift(0)]*3
        p = primary(S)[0]
        conv = StubConv(S)
        solves = []

        def bsolve(terms, b, out, cons, loc):
            n = len(solves) + 1
            if len(conv.calls) != n:
                sub.bad('%s/stage%d/conv' % (key, n), 'convection evaluated %d times before system %d' % (len(conv.calls), n), loc)
                raise H.StopRun()
            for j in range(3):
                sub.eq('%s/stage%d/conv-arg%d' % (key, n, j), conv.calls[-1][0][j], st['u'][j], loc)
            Hn = conv.calls[-1][1]
            m = C.mask if mask else lift(1)
            if rk3:
                a, bb = lift(A[(n-1) % 3]), lift(B[(n-1) % 3])
                gam = a + bb
                H0 = [m*(a*x + bb*y)/gam for x, y in zip(Hn, st['Hp'])]
            else:
                gam = lift(1)
                H0 = [m*(3*x - y)*SP.HALF for x, y in zip(Hn, st['Hp'])]
            tau = gam*dt
            want = system(C, nu, tau, gam)
            got = {}
            for (ti, tt, td, si, ss, sd), v in terms.items():
                if any(td) or any(sd[1:]) or tt.bases[0].msig()[1:] != ('N0', quad) or ss.bases[0].msig()[1:] != ('N0', quad):
                    sub.unknown('%s/stage%d/form' % (key, n), 'form not understood')
                    raise H.StopRun()
                k = (ti, tt.bases[0].kind, si, ss.bases[0].kind, sd[0])
                got[k] = got.get(k, lift(0)) + v
            for i in range(4):
                wk = {k: v for k, v in want.items() if k[0] == i}
                gk = {k: v for k, v in got.items() if k[0] == i and not v.is_zero()}
                ref = (i, 'D', i, 'D', 2) if i < 3 else (3, 'T', 0, 'D', 1)
                r = gk[ref]/wk[ref] if ref in gk else lift(1)
                for k in sorted(set(wk) | set(gk)):
                    sub.eq('%s/stage%d/matrix%s' % (key, n, k), gk.get(k, lift(0)), r*wk.get(k, lift(0)), loc)
                if i < 3:
                    u = st['u'][i]
                    rhs = (2*X.inverse(nu*tau) - C.K2)*C.mat('D', 'D', 0, u) + C.mat('D', 'D', 2, u)
                    rhs = rhs + 2*X.inverse(nu)*C.mat('D', 'D', 0, H0[i])
                    if i == 1:
                        rhs = rhs - 2*X.inverse(nu)*Sk[1]
                else:
                    rhs = lift(0)
                sub.eq('%s/stage%d/rhs%d' % (key, n, i), b[i], r*rhs, loc)
            N0 = M.gdim(0)
            cs = set()
            for c in cons or ():
                cs.add(tuple('N-1' if isinstance(x, Expr) and X.equal(x, N0-1) else 'N-1' if x == -1 and j == 1 else
                             X.const_value(x) if isinstance(x, Expr) else x for j, x in enumerate(c)))
            sub.true('%s/stage%d/constraints' % (key, n), cs == {(3, 0, 0), (3, 'N-1', 0)},
                     'pressure constraints are %s' % (cons,), loc)
            sub.true('%s/stage%d/solution' % (key, n), out.store is p.store and list(out.idx) == list(p.idx),
                     'the block system is not solved into the solution', loc)
            st['u'] = H.name_cells(out, 'x@%d.' % n)
            st['Hp'] = Hn
            solves.append(n)
        S.it.config['bsolve'] = bsolve

        def upd(n):
            per = 3 if rk3 else 1
            if len(solves) != per*n:
                sub.bad('%s/step%d/solves' % (key, n), '%d systems solved in %d steps' % (len(solves), n))
                raise H.StopRun()
            d = X.region_ind(C.region)
            cur = H.cells(p)
            for j in range(4):
                # the mean wall normal velocity is zero by continuity, set or not
                f = (1-d) if j == 0 else lift(1)
                sub.eq('%s/step%d/state%d' % (key, n, j), f*cur[j], f*st['u'][j], H.prov(p, j))
            st['u'] = H.name_cells(p, 'y@%d.' % n)
        run_steps(S, 3 if rk3 else 5, upd)
        return S
    both_routes(chk, key, attempt, (True,))
