"""C11: convection forms of the channel solvers."""
from .common import *  # noqa

RULE = ('get_convection(**context), twice for different solutions, and the first evaluation of the selected convection function inside spectralDNS.solve, are '
        'abstractly interpreted on symbolic fields for every channel solver and convection form; each component must equal the '
        'reference formula of that form (dealiased products, wall normal derivatives through the Chebyshev bases).')
MINIMUM = 300
FORMS = ('Standard', 'Divergence', 'Skew', 'Vortex')
SOLVERS = ('KMM', 'KMMr', 'KMMRK3', 'KMM_RB', 'KMMRK3_RB', 'Coupled', 'CoupledRK3')


def run(chk):
    for name in SOLVERS:
        for form in FORMS:
            for dealias in ('2/3-rule', '3/2-rule', 'None'):
                for quad in ('GC', 'GL') if chk.thorough or dealias == '3/2-rule' else ('GC',):
                    for dec in ('slab', 'pencil') if chk.thorough else ('slab',):
                        for rank in (0, 1) if chk.thorough or dealias == '2/3-rule' else (0,):
                            key = '%s/%s/%s/%s/%s/rank%d' % (name, form, dealias, quad, dec, rank)
                            for way in ('get', 'step'):
                                with chk.guard('%s/%s' % (key, way)):
                                    one(chk, '%s/%s' % (key, way), way, name, form, dealias, quad, dec, rank)


def want(S, name, form, dealias, quad, u, g):
    C = SP.Channel(2 if name == 'KMMr' else 0, dealias, quad, quad, 0, 'Kx' if name == 'KMMr' else 'K')
    kw = 'D' if name.startswith('Coupled') else 'B'
    return C, SP.channel_forms(C, u, g, form, kw)


def compare(chk, key, C, got, ws, loc):
    for j in range(3):
        e = got[j]
        if isinstance(e, Expr) and not X.equal(e, ws[j]):
            e = SP.same_functions(C, e)
            w = SP.same_functions(C, ws[j])
        else:
            w = ws[j]
        chk.eq('%s[%d]' % (key, j), e, w, loc(j))


def one(chk, key, way, name, form, dealias, quad, dec, rank):
    S = load_solver(name, Dquad=quad, Bquad=quad, dealias=dealias, convection=form, decomposition=dec, rank=rank)
    setup_state(S)
    it = S.it
    u = list(S.state[0][:3])
    g = None if name.startswith('Coupled') else S.state[1][0]
    C, ws = want(S, name, form, dealias, quad, u, g)
    before = [H.cells(a) for a in primary(S)]
    done = []

    def judge(r, key=key):
        done.append(1)
        if not (isinstance(r, Arr) and len(r.idx) == 3):
            chk.bad(key, 'convection returned %r' % (r,))
            return
        compare(chk, key, C, H.cells(r), ws, lambda j: H.prov(r, j))
        now = [H.cells(a) for a in primary(S)]
        chk.true('%s/state' % key, now == before, 'evaluating the convection changed the solution')
        for s in it.suspects:
            if s[0] in ('index-out-of-range', 'index-axis-mismatch', 'matvec-alias', 'complex-into-real'):
                chk.bad('%s/%s' % (key, s[0]), s[2] if len(s) > 2 else s[0], s[1])

    def other():
        """another solution; every other array keeps what it holds"""
        new_state(S)
        g = None if name.startswith('Coupled') else S.state[1][0]
        ws[:] = want(S, name, form, dealias, quad, list(S.state[0][:3]), g)[1]
        before[:] = [H.cells(a) for a in primary(S)]
    if way == 'get':
        set_conv(S)
        judge(it.call(it.get_attr(S.solver, 'get_convection', None), [], dict(S.c), None))
        other()
        judge(it.call(it.get_attr(S.solver, 'get_convection', None), [], dict(S.c), None), key + '/again')
    else:
        one_level(S, [h for h in ('U_hat0', 'UP_hat0') if isinstance(S.c.get(h), Arr)], 0)
        real = S.solver.env.get('getConvection')
        if real is None:
            raise AnalysisError('anchor vanished: getConvection')

        def gc(it_, a, k, n):
            inner = it_.call(real, list(a), dict(k), n)

            def conv(it2, a2, k2, n2):
                r = it2.call(inner, list(a2), dict(k2), n2)
                judge(r)
                other()
                judge(it2.call(inner, list(a2), dict(k2), n2), key + '/again')
                raise H.StopRun()
            return Builtin('conv', conv)
        S.solver.env['getConvection'] = Builtin('getConvection', gc)
        try:
            run_steps(S, 1, lambda n: None)
        except AnalysisError:
            if not done:
                raise
        if not done:
            chk.unknown(key, 'no convection evaluation seen in a step')
    chk.absorb(it, suspects=False)
