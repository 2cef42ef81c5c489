"""C19: derived fields (velocity, vorticity, divergence, pressure, gradients)."""
from .common import *  # noqa

RULE = ('Every derived-field function of every solver (get_velocity, get_curl, get_divergence, get_pressure after a tendency '
        'evaluation, get_rho, get_Ur, compute_derivatives, set_velocity) is abstractly interpreted on symbolic solutions with '
        'stale work arrays, and once more for another solution with what the first call left; each returned component must equal the transform of the defining expression, on the nominal mesh '
        '(no padding), and the solution and the stored history must be unchanged afterwards.')
MINIMUM = 300
PERIODIC = ('NS', 'VV', 'MHD', 'NS2D', 'Bq2D')
FIELDS = {'NS': ('get_velocity', 'get_curl', 'get_divergence', 'get_pressure', 'set_velocity'),
          'VV': ('get_velocity', 'get_curl', 'get_divergence', 'set_velocity'),
          'MHD': ('get_divergence',),
          'NS2D': ('get_velocity', 'get_curl', 'get_divergence', 'get_pressure', 'set_velocity'),
          'Bq2D': ('get_velocity', 'get_curl', 'get_divergence', 'get_pressure', 'get_rho', 'get_Ur'),
          'KMM': ('get_velocity', 'get_curl', 'get_divergence', 'compute_derivatives', 'set_velocity'),
          'Coupled': ('get_velocity', 'get_divergence', 'set_velocity')}
for _n in ('KMMr', 'KMMRK3', 'KMM_RB', 'KMMRK3_RB'):
    FIELDS[_n] = FIELDS['KMM']
FIELDS['CoupledRK3'] = FIELDS['Coupled']


def run(chk):
    for name in ALL_SOLVERS:
        quads = ('GC',) if name in PERIODIC else ('GC', 'GL')
        for dealias in ('2/3-rule', '3/2-rule', 'None'):
            for dec in ('slab', 'pencil'):
                for quad in quads:
                    for rank in (0, 1):
                        for mask in (True, False) if chk.thorough or dealias == '3/2-rule' else (True,):
                            over = {} if name in PERIODIC else dict(Dquad=quad, Bquad=quad)
                            S = None
                            for f in FIELDS[name]:
                                key = '%s/%s/%s/%s/%s/rank%d/%s' % (name, f, dealias, dec, quad, rank, 'mask' if mask else 'nomask')
                                with chk.guard(key):
                                    S = S or load_solver(name, dealias=dealias, decomposition=dec, rank=rank, mask_nyquist=mask,
                                                         **over)
                                    del S.it.suspects[:]
                                    one(chk, key, name, f, dealias, quad, mask, S)
                            if S is not None:
                                chk.absorb(S.it, suspects=False)


def plain(e):
    """Wavenumbers with and without the Nyquist frequency, and masks, count as equal here."""
    def f(a):
        if a.kind == 'sym' and a.name.startswith('Kx'):
            return X.sym('K' + a.name[2:], a.dep, ('real', 'wavenum'))
        if a.kind == 'sym' and a.name == 'mask':
            return lift(1)
        if a.kind == 'lin':
            inner = X.substitute(a.args[2], f)
            return X.linop(a.args[0], inner, a.args[1]) if inner != a.args[2] else None
        return None
    return X.substitute(e, f)


def wanted(S, name, f, up):
    """list of alternatives per component"""
    u = S.state[0]
    if name in PERIODIC:
        F = SP.Fourier(S.ndim, 'None')
        b = lambda e: F.bwd(e, '')
        nd = S.ndim
        v = [SP.IM*q for q in SP.cross(F.KK, u)] if name == 'VV' else u[:nd]
        if f == 'get_velocity':
            return [b(e) for e in v]
        if f == 'get_Ur':
            return [b(e) for e in u]
        if f == 'get_rho':
            return [b(u[2])]
        if f == 'get_curl':
            if name == 'VV':
                return [b(e) for e in u]
            if nd == 2:
                return [b(SP.IM*(F.K[0]*v[1] - F.K[1]*v[0]))]
            return [b(e) for e in SP.curl_hat(F.K, v)]
        if f == 'get_divergence':
            if name == 'VV':
                return [lift(0)]
            return [b(SP.IM*sum((F.K[i]*v[i] for i in range(nd)), lift(0)))]
        if f == 'set_velocity':
            return [F.fwd(e, '') for e in up]
        raise AnalysisError(f)
    ax = 2 if name == 'KMMr' else 0
    kw = 'D' if name.startswith('Coupled') else 'B'
    C = SP.Channel(ax, 'None', S.params.attrs['Dquad'], S.params.attrs['Bquad'], 0)
    kinds = ['D']*3
    kinds[ax] = kw
    u = u[:3]
    if f == 'get_velocity':
        return [C.bwd(k, e) for k, e in zip(kinds, u)]
    if f == 'set_velocity':
        return [C.fwd(k, e) for k, e in zip(kinds, up)]
    g = SP.channel_grad(C, u, kw)
    if f == 'get_divergence':
        return [g[0][0] + g[1][1] + g[2][2]]
    if f == 'compute_derivatives':
        return [g[i][j] for i in range(3) for j in range(3)]
    if f == 'get_curl':
        c = [g[2][1] - g[1][2], g[0][2] - g[2][0], g[1][0] - g[0][1]]
        c[ax] = [C.bwd('D', S.state[1][0]), c[ax]]
        return c
    raise AnalysisError(f)


def one(chk, key, name, f, dealias, quad, mask, S):
    setup_state(S, hist=[k for k in HIST.get(name, ())])
    evaluate(chk, key, name, f, dealias, quad, mask, S)
    # the same function once more for another solution, everything else left as it is
    new_state(S)
    evaluate(chk, key + '/again', name, f, dealias, quad, mask, S, 'n')
    for s in S.it.suspects:
        if s[0] in ('index-out-of-range', 'index-axis-mismatch', 'matvec-alias', 'complex-into-real'):
            chk.bad('%s/%s' % (key, s[0]), s[2] if len(s) > 2 else s[0], s[1])


def evaluate(chk, key, name, f, dealias, quad, mask, S, tag=''):
    it = S.it
    up = None
    if f == 'set_velocity':
        up = H.name_cells(S.c['U'], 'up' + tag, ('real',))
    if f == 'get_pressure':
        for k in S.force:
            a = S.c[k]
            for j in a.idx:
                a.store.cells[j] = lift(0)
        tendency_protocol(S)
        F = SP.Fourier(S.ndim, dealias)
        u, v = S.state[0], S.vals
        src = [lift(0)]*S.ndim
        if name == 'Bq2D':
            p = SP.bq2d_rhs(F, u, v['nu'], v['Ri'], v['Pr'], mask)[1]
        else:
            p = SP.ns_rhs(F, u, 'Vortex', v['nu'], src, mask)[1]
        ws = [F.bwd(-SP.IM*p, '')]
    else:
        ws = wanted(S, name, f, up)
    before = {}
    for k, a in list(S.c.items()):
        if isinstance(a, Arr) and (k in HIST.get(name, ()) or k in ('Source', 'Sk')):
            before[k] = H.cells(a)
    if f != 'set_velocity':
        for j, a in enumerate(primary(S)):
            before['u%d' % j] = H.cells(a)
    r = it.call(it.get_attr(S.solver, f, None), [], dict(S.c), None)
    target = r
    if f == 'set_velocity':
        target = S.c['U_hat']
    if not isinstance(target, Arr):
        chk.bad(key, '%s returned %r' % (f, r))
        return
    got = H.cells(target)
    chk.true('%s/shape' % key, len(got) == len(ws), '%s has %d components, %d required' % (f, len(got), len(ws)))
    if name not in PERIODIC:
        C = SP.Channel(2 if name == 'KMMr' else 0, 'None', quad, quad, 0)
    for j, (e, w) in enumerate(zip(got, ws)):
        alts = w if isinstance(w, list) else [w]
        if isinstance(e, Expr):
            e = plain(e)
            alts = [plain(x) for x in alts]
            if name not in PERIODIC and not any(X.equal(e, x) for x in alts):
                e = SP.same_functions(C, e)
                alts = [SP.same_functions(C, x) for x in alts]
        x = next((x for x in alts if isinstance(e, Expr) and X.equal(e, x)), alts[0])
        chk.eq('%s[%d]' % (key, j), e, x, H.prov(target, j))
    after = {}
    for k in before:
        a = primary(S)[int(k[1:])] if k[0] == 'u' and k[1:].isdigit() else S.c[k]
        after[k] = H.cells(a)
    chk.true('%s/state' % key, before == after, '%s changes the solution or its history: %s' % (
        f, [k for k in before if before[k] != after[k]]))
