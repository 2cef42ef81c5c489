"""C06: optimised kernels compute what the reference implementation computes."""
from .common import *  # noqa
from . import c05

RULE = ('With optimization set to numba, cython or pythran the optimizer decorator is abstractly interpreted, so that the selected '
        'kernel source (Python loops, Cython templates in both precisions) takes part in the analysis at the generic grid '
        'index; tendencies, integrator steps, convection forms, implicit channel steps and derived fields must have the same '
        'normal form as with no optimization, every call must fit the typed signature of the kernel, and no index may leave '
        'the extent of its axis.')
MINIMUM = 300
OPTS = ('numba', 'cython', 'pythran', 'weave')
PER = (('NS', ('Vortex', 'Standard', 'Divergence', 'Skewed')), ('VV', ('Vortex',)), ('MHD', ('Divergence',)),
       ('NS2D', ('Vortex',)), ('Bq2D', ('Vortex',)))
CH = ('KMM', 'KMMr', 'KMMRK3', 'KMM_RB', 'KMMRK3_RB', 'Coupled', 'CoupledRK3')


def run(chk):
    full = chk.thorough
    for prec in ('double', 'single'):
        for name, forms in PER:
            for conv in forms:
                ref = {}
                for dealias in ('2/3-rule', '3/2-rule', 'None') if full or conv == 'Vortex' else ('3/2-rule',):
                    for opt in OPTS:
                        key = '%s/tendency/%s/%s/%s/%s' % (name, opt, prec, conv, dealias)
                        with chk.guard(key):
                            compare(chk, key, ref, dealias, tendency, name, opt, convection=conv, precision=prec, dealias=dealias)
            ref = {}
            for opt in OPTS:
                key = '%s/fields/%s/%s' % (name, opt, prec)
                with chk.guard(key):
                    compare(chk, key, ref, 0, fields, name, opt, precision=prec)
                for integ in ('RK4', 'ForwardEuler', 'AB2', 'BS5_fixed'):
                    for t0 in (0, 7):
                        key = '%s/%s/%s/%s/%s' % (name, integ, opt, prec, 'start' if t0 == 0 else 'restart')
                        with chk.guard(key):
                            c05.fixed(chk, key, name, integ, t0, prec, optimization=opt)
    for name in CH:
        for quad in ('GC', 'GL') if full else ('GC',):
            ref = {}
            for form in ('Vortex', 'Standard', 'Divergence', 'Skew') if full else ('Vortex', 'Skew'):
                for opt in OPTS:
                    key = '%s/convection/%s/%s/%s' % (name, opt, form, quad)
                    with chk.guard(key):
                        compare(chk, key, ref, form, convection, name, opt, convection=form, Dquad=quad, Bquad=quad)
            for rank in (0, 1):
                for opt in OPTS:
                    key = '%s/step/%s/%s/rank%d' % (name, opt, quad, rank)
                    with chk.guard(key):
                        compare(chk, key, ref, ('step', rank), step, name, opt, Dquad=quad, Bquad=quad, rank=rank)


def compare(chk, key, ref, rk, action, name, opt, **over):
    if rk not in ref:
        S = load_solver(name, optimization='', **over)
        ref[rk] = action(S)
    S = load_solver(name, optimization=opt, **over)
    got = action(S)
    want = ref[rk]
    chk.true(key + '/fields', set(got) == set(want), 'fields %s instead of %s' % (sorted(got), sorted(want)))
    for k in sorted(set(got) & set(want)):
        g, pr = got[k]
        w = want[k][0]
        chk.true('%s/%s/shape' % (key, k), len(g) == len(w), '%d components instead of %d' % (len(g), len(w)))
        for j, (a, b) in enumerate(zip(g, w)):
            if isinstance(b, Top):
                chk.unknown('%s/%s[%d]' % (key, k, j), 'reference value unknown: %s' % b.why)
                continue
            chk.eq('%s/%s[%d]' % (key, k, j), a, b, pr[j])
    for s in S.it.suspects:
        if s[0] in ('index-out-of-range', 'index-axis-mismatch', 'matvec-alias', 'precision'):
            chk.bad('%s/%s' % (key, s[0]), s[2] if len(s) > 2 else s[0], s[1])
    chk.absorb(S.it, suspects=False)


def grab(a):
    return H.cells(a), [H.prov(a, j) for j in range(len(a.idx))]


def tendency(S):
    setup_state(S)
    r = tendency_protocol(S)
    out = {'tendency': grab(r)}
    if isinstance(S.c.get('P_hat'), Arr):
        out['P_hat'] = grab(S.c['P_hat'])
    for j, a in enumerate(primary(S)):
        out['state%d' % j] = grab(a)
    return out


def fields(S):
    out = {}
    for f in ('get_velocity', 'get_curl', 'get_divergence'):
        g = S.solver.env.get(f)
        if g is None or (S.name == 'Bq2D' and f == 'get_curl'):
            continue
        setup_state(S)
        r = S.it.call(g, [], dict(S.c), None)
        if isinstance(r, Arr):
            out[f] = grab(r)
    return out


def convection(S):
    setup_state(S)
    set_conv(S)
    r = S.it.call(S.it.get_attr(S.solver, 'get_convection', None), [], dict(S.c), None)
    return {'convection': grab(r)}


def step(S):
    setup_state(S, hist=HIST.get(S.name, ()))
    one_level(S, [h for h in ('U_hat0', 'UP_hat0') if isinstance(S.c.get(h), Arr)], 0)
    out = {}

    def before(n):
        if n == 1:          # a second evaluation: cut the state at the first stage
            for j, a in enumerate(primary(S)):
                out['stage%d' % j] = grab(a)
            raise H.StopRun()
    StubConv(S, before)

    def upd(n):
        for j, a in enumerate(primary(S)):
            out['state%d' % j] = grab(a)
    try:
        run_steps(S, 1, upd)
    except AnalysisError:
        if not out:
            raise
    return out
