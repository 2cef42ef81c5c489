"""C03: tendency of the doubly periodic solvers."""
from .common import *  # noqa

RULE = ('For NS2D and Bq2D and every dealiasing x mask x decomposition (x precision) configuration one '
        'evaluation of the right-hand side is abstractly interpreted with symbolic fields; every normal form '
        'must equal the transformed 2D Navier-Stokes / Boussinesq equations.')


def run(chk):
    precs = ('double', 'single')
    for name in ('NS2D', 'Bq2D'):
        for prec in precs:
            for dealias in ('2/3-rule', '3/2-rule', 'None'):
                for mask in (True, False):
                    for dec in ('slab', 'pencil'):
                        one(chk, name, dealias, mask, dec, prec)


def one(chk, name, dealias, mask, dec, prec):
    key = '%s/%s/%s/%s/%s' % (name, dealias, 'mask' if mask else 'nomask', dec, prec)

    def wants(S):
        F = SP.Fourier(2, dealias)
        u = S.state[0]
        v = S.vals
        if name == 'NS2D':
            return SP.ns_rhs(F, u, 'Vortex', v['nu'], S.force['Source'], mask)[0]
        for k in S.force:
            a = S.c[k]
            for j in a.idx:
                a.store.cells[j] = lift(0)
        return SP.bq2d_rhs(F, u, v['nu'], v['Ri'], v['Pr'], mask)[0]
    with chk.guard(key):
        check_tendency(chk, key, name, wants, dealias=dealias, mask_nyquist=mask,
                       decomposition=dec, precision=prec)
