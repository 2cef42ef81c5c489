"""C02: tendency of the magnetohydrodynamics solver."""
from .common import *  # noqa

RULE = ('For every dealiasing x mask x decomposition (x precision) configuration the MHD context is built and '
        'one evaluation of the right-hand side is abstractly interpreted with symbolic fields; all six '
        'normal forms must equal the transformed incompressible MHD equations in Elsasser form.')


def run(chk):
    precs = ('double', 'single')
    for prec in precs:
        for dealias in ('2/3-rule', '3/2-rule', 'None'):
            for mask in (True, False):
                for dec in ('slab', 'pencil'):
                    one(chk, dealias, mask, dec, prec)


def one(chk, dealias, mask, dec, prec):
    key = 'MHD/%s/%s/%s/%s' % (dealias, 'mask' if mask else 'nomask', dec, prec)

    def wants(S):
        F = SP.Fourier(3, dealias)
        for k in S.force:
            a = S.c[k]
            for j in a.idx:
                a.store.cells[j] = lift(0)
        return SP.mhd_rhs(F, S.state[0], S.vals['nu'], S.vals['eta'], mask)[0]
    with chk.guard(key):
        check_tendency(chk, key, 'MHD', wants, convection='Divergence', dealias=dealias, mask_nyquist=mask,
                       decomposition=dec, precision=prec)
