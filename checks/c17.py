"""C17: results do not depend on rank, number of ranks or decomposition."""
from .common import *  # noqa
from .c19 import FIELDS, one as _field  # noqa
from .c16 import cut  # noqa

RULE = ('Rates of change, integrator and channel steps, step sizes, convection, derived fields, result and checkpoint contents are '
        'abstractly interpreted as rank 0 with slab, rank 0 with pencil, and another rank with slab and pencil decomposition.  The '
        'normal forms must be the same functions everywhere, except that the mean Fourier mode is treated by the rank that holds '
        'it (rank 0); no value may contain the local extent of an array, the number of ranks or a sum over local values that was '
        'not reduced over all ranks.')
MINIMUM = 200
PERIODIC = ('NS', 'VV', 'MHD', 'NS2D', 'Bq2D')
VIEWS = ((0, 'slab'), (0, 'pencil'), (1, 'slab'), (1, 'pencil'))


def run(chk):
    for name in ALL_SOLVERS:
        per = name in PERIODIC
        for dealias in ('2/3-rule', '3/2-rule'):
            for mask in (True, False):
                base = dict(dealias=dealias, mask_nyquist=mask)
                tag = '%s/%s/%s' % (name, dealias, 'mask' if mask else 'nomask')
                if per:
                    forms = {'NS': ('Vortex', 'Standard', 'Divergence', 'Skewed'), 'MHD': ('Divergence',)}.get(name, ('Vortex',))
                else:
                    forms = ('Vortex', 'Standard', 'Divergence', 'Skew')
                for conv in forms:
                    over = dict(base, convection=conv)
                    views(chk, '%s/%s/%s' % (tag, conv, 'rate' if per else 'conv'), name, over, rate if per else conv_of)
                if not per:
                    views(chk, tag + '/step', name, base, channel_steps)
                for fn in FIELDS[name]:
                    views(chk, '%s/%s' % (tag, fn), name, base, lambda S, fn=fn: field(S, fn))
        if per:
            for integ in ('ForwardEuler', 'RK4', 'AB2', 'BS5_fixed', 'BS5_adaptive'):
                views(chk, '%s/%s' % (name, integ), name, dict(integrator=integ), steps)
        views(chk, name + '/files', name, dict(tstep=6, write_result=3, checkpoint=2, filemode='w'), files)


def views(chk, key, name, over, f):
    with chk.guard(key):
        if name == 'MHD':
            over = dict(over, convection='Divergence')
        per = name in PERIODIC
        ref = None
        sent = []
        for rank, dec in VIEWS:
            S = load_solver(name, rank=rank, decomposition=dec, **over)
            if sent:
                S.it.config['bcast_log'] = list(sent)
            setup_state(S, hist=HIST.get(name, ()))
            out = f(S)
            if not rank and not sent:
                sent.extend(e.data[1][0] for e in S.it.events if e.kind == 'mpi' and e.data[0] == 'bcast')
            chk.absorb(S.it, suspects=False)
            if ref is None:
                ref = out
                for k, (v, loc) in sorted(out.items()):
                    if isinstance(v, Expr):
                        bad = tainted(v)
                        chk.true('%s/%s/local' % (key, k), not bad, 'depends on %s, which differs between ranks or with the number '
                                 'of ranks' % ', '.join(sorted(bad)[:4]), loc)
                continue
            what = 'rank%d/%s' % (rank, dec)
            if set(out) != set(ref):
                chk.bad('%s/%s' % (key, what), 'different results on another rank or decomposition: %s' % sorted(set(out) ^ set(ref)))
                continue
            for k in sorted(ref):
                v, loc = out[k]
                w = ref[k][0]
                if isinstance(v, Top) or isinstance(w, Top):
                    chk.unknown('%s/%s/%s' % (key, what, k), 'value unknown')
                    continue
                if not isinstance(v, Expr) or not isinstance(w, Expr):
                    chk.true('%s/%s/%s' % (key, what, k), v == w, '%r, on rank 0 %r' % (v, w), loc)
                    continue
                if rank:
                    w = elsewhere(w, None if per else 2 if name == 'KMMr' else 0)
                    if name.endswith('_RB'):
                        v, w = no_boundary(v), no_boundary(w)
                    bad = tainted(v)
                    if bad:
                        chk.bad('%s/%s/%s/local' % (key, what, k), 'depends on %s' % ', '.join(sorted(bad)[:4]), loc)
                        continue
                chk.eq('%s/%s/%s' % (key, what, k), v, w, loc, 'not the same function as on rank 0 with slab decomposition')


def tainted(e):
    """Local extents, rank numbers, sums of fields not reduced over all ranks."""
    out = {str(a.name) for a in X.rank_local(e)}
    seen = set()

    def walk(x):
        for a in x.atoms():
            if a in seen:
                continue
            seen.add(a)
            if a.kind == 'sym' and a.name == 'nprocs':
                out.add('nprocs')
            if a.kind == 'fun' and str(a.name).startswith('mpi_'):
                continue
            for y in a.args:
                if isinstance(y, Expr):
                    walk(y)
    walk(e)
    return out


def elsewhere(e, wall):
    """The value on a rank that does not hold the mean mode."""
    def f(a):
        if a.kind == 'reg' and any(ax != wall for ax, i in a.name):
            return lift(0)
        return None
    return X.substitute(e, f)


def no_boundary(e):
    """Boundary values (last two coefficients of a temperature) are zero on
    ranks that do not hold the mean mode."""
    def f(a):
        if a.kind == 'at' and any(ax == 0 and i in (-1, -2) for ax, i in a.args[1]):
            return lift(0)
        return None
    return X.substitute(e, f)


def arr_out(out, base, a):
    for j, e in enumerate(H.cells(a)):
        out['%s%d' % (base, j)] = (e, H.prov(a, j))


def rate(S):
    r = tendency_protocol(S)
    if not isinstance(r, Arr):
        raise AnalysisError('ComputeRHS returned %r' % (r,))
    out = {}
    arr_out(out, 'rhs', r)
    if isinstance(S.c.get('P_hat'), Arr):
        arr_out(out, 'P', S.c['P_hat'])
    return out


def conv_of(S):
    set_conv(S)
    r = S.it.call(S.it.get_attr(S.solver, 'get_convection', None), [], dict(S.c), None)
    out = {}
    arr_out(out, 'conv', r)
    return out


def channel_steps(S):
    out = {}
    p = primary(S)
    one_level(S, [h for h in ('U_hat0', 'UP_hat0') if isinstance(S.c.get(h), Arr)], 0)
    if isinstance(S.c.get('phi_hat0'), Arr):
        one_level(S, ('phi_hat0',), 2)
    n = [0]

    def collect(tag):
        for j, a in enumerate(p):
            arr_out(out, '%s/%d.' % (tag, j), a)
            rename(S, a, '%s@%d.' % ('ugT'[j], n[0]))
        n[0] += 1

    def bsolve(terms, b, o, cons, loc):
        for k, v in sorted(terms.items(), key=str):
            out['system%d/%s' % (n[0], [x if isinstance(x, (int, tuple)) else x.bases[0].kind for x in k])] = (v, loc)
        for i, v in enumerate(b):
            out['rhs%d/%d' % (n[0], i)] = (v, loc)
        H.name_cells(o, 'x@%d.' % n[0])
        n[0] += 1
    S.it.config['bsolve'] = bsolve
    StubConv(S, lambda k: collect('stage%d' % k) if k else None)
    run_steps(S, 2, lambda k: collect('step%d' % k))
    return out


def steps(S):
    """Integrator steps with a right-hand side of fresh symbols."""
    out = {}
    u = primary(S)[0]
    ax = tuple(range(S.ndim))
    calls = [0]

    def rhs_hook(it, a, k, n):
        calls[0] += 1
        for j, c in enumerate(a[0].idx):
            a[0].store.cells[c] = X.sym('F%d_%d' % (calls[0], j), ax)
        return a[0]
    S.solver.env['ComputeRHS'] = Builtin('ComputeRHS', rhs_hook)
    S.solver.env['end_of_tstep'] = Builtin('end_of_tstep', lambda it, a, k, n: False)
    nop = Builtin('nop', lambda *a: None)
    S.c['hdf5file'] = Obj('F', update=nop, close=nop)
    S.it.config['far'] = True
    rej = [None]

    def oracle(e):
        if not any(a.kind == 'fun' and str(a.name).startswith('mpi_') for a in X.all_atoms(e)) or tainted(e):
            return None

        def val(a):
            if a.kind != 'ind' or a.name not in ('gt0', 'eq0'):
                return None
            if a.name == 'eq0':
                return False
            k = [(m, c) for m, c in a.args[0].t.items() if m != ()]
            if len(k) != 1:
                return None
            if rej[0] is None:
                rej[0] = k[0][0]            # the first attempt is rejected
            return (k[0][1] > 0) == (k[0][0] == rej[0])
        return decide_ind(e, val)
    S.it.config['oracle'] = oracle
    P = S.params.attrs

    def upd(n):
        arr_out(out, 'u%d.' % n, u)
        for k in ('t', 'dt'):
            out['%s%d' % (k, n)] = (P[k], None)
        if isinstance(P['dt'], Expr) and len(X.all_atoms(P['dt'])) > 1:
            P['dt'] = H.real('h%d' % n, 'pos')
        H.name_cells(u, 'u@%d.' % n)
    H.drive(S, 2, upd)
    return out


def field(S, fn):
    it = S.it
    if fn == 'set_velocity':
        H.name_cells(S.c['U'], 'up', ('real',))
    if fn == 'get_pressure':
        tendency_protocol(S)
    r = it.call(it.get_attr(S.solver, fn, None), [], dict(S.c), None)
    out = {}
    if isinstance(r, Arr):
        arr_out(out, 'value', r)
    elif isinstance(r, dict):
        for k, v in r.items():
            if isinstance(v, Arr):
                arr_out(out, 'value %s' % k, v)
            elif isinstance(v, Expr):
                out['value %s' % k] = (v, None)
    elif isinstance(r, (list, tuple)):
        for i, v in enumerate(r):
            if isinstance(v, Arr):
                arr_out(out, 'value %d.' % i, v)
            elif isinstance(v, Expr):
                out['value %d' % i] = (v, None)
    for j, a in enumerate(primary(S)):
        arr_out(out, 'state%d.' % j, a)
    return out


def files(S):
    it = S.it
    for j, v in enumerate(step_state(S)):
        H.name_cells(v, 'S%d@6.' % j)
    it.config['oracle'] = Killer()
    fobj = S.c['hdf5file']
    it.call(it.get_attr(fobj, 'update', None), [S.params], dict(S.c), None)
    out = {}
    for suffix in ('_c', '_w'):
        d = it.config.get('disk', {}).get(fobj.attrs['filename'] + suffix, {'attrs': {}, 'data': {}})
        for k, v in d['attrs'].items():
            out['%s attr %s' % (suffix, k)] = (v, None)
        for (step, nm), v in d['data'].items():
            for q, item in enumerate(v[0]):
                cells = item if isinstance(item, list) else item[1] if isinstance(item, tuple) and item[0] == 'slice' else [item]
                for j, e in enumerate(cells):
                    out['%s %s/%s[%d]%d' % (suffix, step, nm, q, j)] = (e, 'spectralDNS/h5io/HDF5File.py')
    return out
