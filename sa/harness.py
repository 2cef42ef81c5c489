"""Drives the abstract interpreter through the public entry points.

`Sim` loads one solver configuration (abstractly: nothing is executed), names
the physical state with fresh symbols and runs `spectralDNS.solve` for a given
number of time steps.  All work space (work arrays, right-hand-side buffers,
derived fields) is filled with `stale` symbols, so a read of left-over data is
visible in the result."""
from . import expr as X
from .expr import Expr, lift
from .values import *  # noqa
from . import interp as I, models as M
from . import npmore  # noqa: F401 (registers further numpy models)


class Sim(object):
    pass


def real(name, *flags):
    return X.sym(name, X.NONE, ('real',) + flags)


TWO_D = ('NS2D', 'Bq2D')
CHANNEL = ('KMM', 'KMMr', 'KMMRK3', 'KMM_RB', 'KMMRK3_RB', 'Coupled', 'CoupledRK3')
TRIPLE = ('NS', 'VV', 'MHD')


def mesh_of(solver):
    return ('doublyperiodic' if solver in TWO_D else
            'channel' if solver in CHANNEL else 'triplyperiodic')


def default_integrator(solver):
    return {'KMMRK3': 'implicitRK3', 'KMMRK3_RB': 'implicitRK3'}.get(
        solver, 'implicit' if solver in CHANNEL else 'ForwardEuler')


def new_interp(rank=0, ndim=3, repo=None):
    it = I.Interp(repo)
    it.rank = rank
    it.config['ndim'] = ndim
    from . import lumodel
    lumodel.install(it)
    return it


BASE = dict(precision='double', optimization='', make_profile=0, filemode='w',
            dealias='2/3-rule', decomposition='slab', ntol=7, threads=1,
            h5filename='results', verbose=True, mask_nyquist=True,
            convection='Vortex', Dquad='GC', Bquad='GC', Nquad='GC')


def base_params(solver, **over):
    nd = 2 if solver in TWO_D else 3
    p = dict(BASE)
    p['solver'] = solver
    p['integrator'] = default_integrator(solver)
    p['nu'] = real('nu', 'pos')
    p['dt'] = real('dt', 'pos')
    p['T'] = real('Tend', 'pos')
    p['t'] = real('t0', 'nonneg')
    p['tstep'] = 0
    p['write_result'] = real('write_result', 'pos', 'int')
    p['checkpoint'] = real('checkpoint', 'pos', 'int')
    p['TOL'] = real('TOL', 'pos')
    p['eta'] = real('eta', 'pos')
    p['Ri'] = real('Ri', 'pos')
    p['Pr'] = real('Pr', 'pos')
    p.update(over)
    return p


def conc_arr(it, vals, name, dtype='float64'):
    s = Store(len(vals), (), dtype, name=name)
    s.cells = [lift(v) for v in vals]
    return Arr(s, (len(vals),), list(range(len(vals))), ())


def load(solver, rank=0, repo=None, pre=None, ranges=None, **over):
    """Import config and the solver, set the parameters, build the context."""
    nd = 2 if solver in TWO_D else 3
    it = new_interp(rank, nd, repo)
    cfg = it.import_module('spectralDNS.config')
    params = cfg.env['params']
    S = Sim()
    S.it, S.cfg, S.params, S.ndim, S.name = it, cfg, params, nd, solver
    vals = base_params(solver, **over)
    pd = params.attrs
    for k, v in vals.items():
        pd[k] = v
    pd['planner_effort'] = cfg.env.get('fft_plans', ADict({'fft': 'FFTW_MEASURE', 'dct': 'FFTW_MEASURE'}))
    ns = conc_arr(it, [M.gdim(i) for i in range(nd)], 'N', 'int64')
    ls = conc_arr(it, [M.ldom(i) for i in range(nd)], 'L')
    pd['N'], pd['L'] = ns, ls
    pd['M'] = conc_arr(it, [real('M%d' % i, 'pos', 'int') for i in range(nd)], 'M', 'int64')
    S.vals = vals
    it.config['double'] = vals['precision'] == 'double'
    if pre:
        pre(S)
    S.top = it.import_module('spectralDNS')
    S.solver = it.import_module('spectralDNS.solvers.' + solver)
    cfg.env['solver'] = S.solver
    f = S.solver.env.get('get_context')
    if f is None:
        raise AnalysisError('anchor vanished: %s.get_context' % solver)
    S.ctx = it.call(f, [], {}, None)
    S.c = S.ctx.attrs
    return S


def arrays(v, seen=None, path=''):
    """(path, Arr) of every array reachable through containers."""
    if seen is None:
        seen = set()
    if id(v) in seen:
        return
    seen.add(id(v))
    if isinstance(v, Arr):
        yield path, v
    elif isinstance(v, (list, tuple)):
        for i, x in enumerate(v):
            for r in arrays(x, seen, '%s[%s]' % (path, i)):
                yield r
    elif isinstance(v, dict):
        for k, x in list(v.items()):
            for r in arrays(x, seen, '%s[%r]' % (path, k)):
                yield r


STATE_EXTRA = ()


def axes_of(a):
    return tuple(range(len(a.dims)))


def name_cells(a, base, flags=()):
    """Give each component of a a fresh symbol base / base[i,j]."""
    n = len(a.idx)
    for j, k in enumerate(a.idx):
        nm = base if n == 1 else '%s%d' % (base, j)
        a.store.cells[k] = X.sym(nm, axes_of(a), flags)
        a.store.prov[k] = None
    return [a.store.cells[k] for k in a.idx]


def stale_all(S, keep=()):
    """Fill every Function/Array of the context that is not state with stale."""
    for k, v in list(S.c.items()):
        if k in keep or not isinstance(v, Arr) or v.kind not in ('Function', 'Array'):
            continue
        for j, cidx in enumerate(v.idx):
            fl = ('stale',) + (('real',) if v.kind == 'Array' else ())
            v.store.cells[cidx] = X.sym('stale:%s%d' % (k, j), axes_of(v), fl)


def cells(a):
    return [a.store.cells[k] for k in a.idx]


def prov(a, j):
    return a.store.prov[a.idx[j]]


class StopRun(Exception):
    pass


def drive(S, nsteps=1, on_update=None, hook_file=True):
    """spectralDNS.solve(solver, context), stopping after nsteps steps; calls
    on_update(step) at each solver.update(context)."""
    it = S.it
    count = [0]

    def upd(it_, a, k, n):
        count[0] += 1
        if on_update:
            on_update(count[0])
        if count[0] >= nsteps:
            raise StopRun()
        return None
    S.solver.env['update'] = Builtin('update', upd)
    f = S.top.env.get('solve')
    if f is None:
        raise AnalysisError('anchor vanished: spectralDNS.solve')
    # concrete time so that the loop guard is decidable
    try:
        it.call(f, [S.solver, S.ctx], {}, None)
    except StopRun:
        pass
    if count[0] < nsteps:
        raise AnalysisError('solve() ended after %d steps (wanted %d)' % (count[0], nsteps))
