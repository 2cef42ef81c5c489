"""C01: tendency of the triply periodic Navier-Stokes solvers."""
from .common import *  # noqa

RULE = ('For every configuration in {NS, VV} x convection form x dealiasing x mask x decomposition x '
        'precision the solver context is built and one evaluation of the right-hand side is '
        'abstractly interpreted with symbolic velocity, viscosity, wavenumbers and source; the '
        'polynomial normal form of every component must equal the transformed, projected '
        'Navier-Stokes equations.  No left-over work-space value may appear.')


def run(chk):
    for prec in ('double', 'single'):
        for dealias in ('2/3-rule', '3/2-rule', 'None'):
            for mask in (True, False):
                for dec in ('slab', 'pencil'):
                    for conv in ('Vortex', 'Standard', 'Divergence', 'Skewed'):
                        one(chk, 'NS', conv, dealias, mask, dec, prec)
                    one(chk, 'VV', 'Vortex', dealias, mask, dec, prec)


def one(chk, name, conv, dealias, mask, dec, prec):
    key = '%s/%s/%s/%s/%s/%s' % (name, conv, dealias, 'mask' if mask else 'nomask', dec, prec)

    def wants(S):
        F = SP.Fourier(3, dealias)
        u, src, nu = S.state[0], S.force['Source'], S.vals['nu']
        if name == 'NS':
            return SP.ns_rhs(F, u, conv, nu, src, mask)[0]
        return SP.vv_rhs(F, u, nu, src, mask)
    with chk.guard(key):
        check_tendency(chk, key, name, wants, convection=conv, dealias=dealias, mask_nyquist=mask,
                       decomposition=dec, precision=prec)
