"""C18: configuration."""
from .common import *  # noqa

RULE = ('config.py and get_solver are abstractly interpreted (argparse modelled after its documentation, Params interpreted '
        'itself): for every mesh, solver and declared parameter the value that reaches params is derived symbolically under '
        '{nothing given, config.update, command line, both} and compared with the documented precedence and defaults; '
        'rejection of invalid values, derived quantities (N, dx, L) and delivery precision are decided the same way.')
MINIMUM = 500

COMMON = dict(precision='double', optimization='', make_profile=0, dt=Fraction(1, 100), T=Fraction(1, 10), write_result=10**8,
              checkpoint=10**8, nu=Fraction(625, 10**6), t=0, tstep=0, filemode='w', dealias='2/3-rule', decomposition='slab',
              ntol=7, threads=1, h5filename='results', verbose=True, mask_nyquist=True, convection='Vortex')
MESH = {
    'triplyperiodic': dict(COMMON, integrator='RK4', TOL=Fraction(1, 10**6)),
    'doublyperiodic': dict(COMMON, integrator='RK4', TOL=Fraction(1, 10**6)),
    'channel': dict(COMMON, Dquad='GC', Bquad='GC', Nquad='GC'),
}
SOLVER = {
    'triplyperiodic': {'NS': {}, 'VV': {}, 'MHD': {'eta': Fraction(1, 100)}, 'Bq': {'Ri': Fraction(1, 10), 'Pr': 1}},
    'doublyperiodic': {'NS2D': {}, 'Bq2D': {'Ri': Fraction(1, 10), 'Pr': 1}},
    'channel': {'KMM': {'integrator': 'implicit'}, 'KMMr': {'integrator': 'implicit'}, 'KMM_RB': {'integrator': 'implicit'},
                'KMMRK3': {'integrator': 'implicitRK3'}, 'KMMRK3_RB': {'integrator': 'implicitRK3'},
                'Coupled': {'integrator': 'implicit'}, 'CoupledRK3': {'integrator': 'implicit'}},
}
CHOICES = {
    'precision': ('single', 'double'), 'optimization': ('cython', 'numba', 'pythran'), 'filemode': ('w', 'r', 'a'),
    'dealias': ('2/3-rule', '3/2-rule', 'None'), 'decomposition': ('slab', 'pencil'),
    'Dquad': ('GC', 'GL'), 'Bquad': ('GC', 'GL'), 'Nquad': ('GC', 'GL'),
}
CONV = {'triplyperiodic': ('Standard', 'Divergence', 'Skewed', 'Vortex'), 'doublyperiodic': ('Vortex',),
        'channel': ('Standard', 'Divergence', 'Skew', 'Vortex')}
INTEG = {'triplyperiodic': ('RK4', 'ForwardEuler', 'AB2', 'BS5_adaptive', 'BS5_fixed'),
         'doublyperiodic': ('RK4', 'ForwardEuler', 'AB2', 'BS5_adaptive', 'BS5_fixed')}
NUM = {'dt': ('0.25', Fraction(1, 4)), 'T': ('3.5', Fraction(7, 2)), 'nu': ('0.125', Fraction(1, 8)), 't': ('1.5', Fraction(3, 2)),
       'TOL': ('0.5', Fraction(1, 2)), 'eta': ('0.75', Fraction(3, 4)), 'Ri': ('2.5', Fraction(5, 2)), 'Pr': ('4.5', Fraction(9, 2))}
INTS = {'make_profile': ('1', 1), 'write_result': ('13', 13), 'checkpoint': ('17', 17), 'tstep': ('5', 5), 'ntol': ('3', 3),
        'threads': ('4', 4)}


def generic(e):
    return decide_ind(e, lambda a: False if a.kind == 'ind' and a.name == 'eq0' else None)


def fresh(mesh):
    it = H.new_interp(0, 2 if mesh == 'doublyperiodic' else 3)
    it.config['interpret_params'] = True
    # the values given are generic: different from zero and from each other
    it.config['oracle'] = generic
    cfg = it.import_module('spectralDNS.config')
    top = it.import_module('spectralDNS')

    def imp(it_, a, k, n):
        return Obj('Solver')
    return it, cfg, top


def upd(it, cfg, d, mesh):
    it.call(it.get_attr(cfg, 'update', None), [ADict(d), mesh], {}, None)


def sel(it, cfg, top, mesh, argv):
    """Selection as done by get_solver; the solver module itself is not built."""
    names = set(it.modules) if hasattr(it, 'modules') else set()
    return it.call(it.get_attr(top, 'get_solver', None), [], {'mesh': mesh, 'parse_args': AList(argv)}, None)


def value(it, cfg, k):
    return it.get_attr(cfg.env['params'], k, None)


def same(v, w):
    if isinstance(w, str) or isinstance(v, str) or isinstance(w, bool) or isinstance(v, bool):
        return type(v) is type(w) and v == w
    if v is None or isinstance(v, Top):
        return None if isinstance(v, Top) else False
    if isinstance(v, Arr):
        return False
    try:
        return X.equal(lift(v), lift(w))
    except Exception:
        return None


def expect(chk, key, it, cfg, k, w, why, loc='spectralDNS/config.py'):
    v = value(it, cfg, k)
    r = same(v, w)
    if r is None:
        chk.unknown(key, 'value %r' % (v,))
    else:
        chk.true(key, r, '%s is %r, required %r (%s)' % (k, v, w, why), loc)


def run(chk):
    import sa.interp as II
    for mesh in MESH:
        for s in SOLVER[mesh]:
            with chk.guard('%s/%s' % (mesh, s)):
                solver_cases(chk, mesh, s)
            if s != 'Bq':
                with chk.guard('%s/%s/by-update' % (mesh, s)):
                    it, cfg, top = fresh(mesh)
                    upd(it, cfg, {'solver': s}, mesh)
                    sel(it, cfg, top, mesh, [])
                    v = value(it, cfg, 'solver')
                    chk.true('%s/%s/by-update' % (mesh, s), v == s, 'config.update(solver=%r) selects %r' % (s, v), 'spectralDNS/config.py')
        with chk.guard(mesh + '/choices'):
            choices(chk, mesh)
        with chk.guard(mesh + '/geometry'):
            geometry(chk, mesh)
    with chk.guard('precision'):
        precision(chk)
    with chk.guard('missing'):
        it, cfg, top = fresh('triplyperiodic')
        upd(it, cfg, {}, 'triplyperiodic')
        sel(it, cfg, top, 'triplyperiodic', ['NS'])
        try:
            v = value(it, cfg, 'no_such_parameter')
            chk.bad('missing', 'a parameter that was never set has the value %r' % (v,))
        except AbsRaise as e:
            chk.ok('missing')
        try:
            upd(it, cfg, {'a': 1}, 'nosuchmesh')
            chk.bad('missing/mesh', 'update accepts an unknown mesh type')
        except AbsRaise:
            chk.ok('missing/mesh')
        chk.absorb(it, suspects=False)
    with chk.guard('attribute'):
        attributes(chk)


def table(mesh, s):
    d = dict(MESH[mesh])
    d.update(SOLVER[mesh][s])
    return d


def own(mesh, s, k):
    """Whether k is an option of the solver's own parser."""
    return k in SOLVER[mesh][s]


def alt(mesh, s, k):
    """(command line tokens, value) different from the default."""
    d = table(mesh, s)[k]
    if mesh == 'channel' and k == 'precision':
        return None              # channel solvers are double precision only
    if k in NUM:
        return ['--' + k, NUM[k][0]], NUM[k][1]
    if k in INTS:
        return ['--' + k, INTS[k][0]], INTS[k][1]
    if k == 'h5filename':
        return ['--h5filename', 'other'], 'other'
    if k in ('verbose', 'mask_nyquist'):
        return ['--no-' + k], False
    ch = CHOICES.get(k) or (CONV[mesh] if k == 'convection' else INTEG.get(mesh, ()) if k == 'integrator' else ())
    for c in ch:
        if c != d:
            return ['--' + k, c], c
    return None


def symval(k, v):
    """Value given to config.update: a symbol where the parameter is numeric."""
    if isinstance(v, (int, Fraction)) and not isinstance(v, bool):
        return H.real('upd_' + k, 'pos')
    return v


def argv(mesh, s, k, toks):
    return [s] + toks if own(mesh, s, k) else toks + [s]


def solver_cases(chk, mesh, s):
    base = '%s/%s' % (mesh, s)
    tab = table(mesh, s)
    # defaults
    it, cfg, top = fresh(mesh)
    try:
        r = sel(it, cfg, top, mesh, [s])
    except AbsRaise as e:
        chk.bad(base + '/select', 'solver %s cannot be selected: %s %s' % (s, e.name, e.msg), 'spectralDNS/config.py')
        return
    chk.true(base + '/select', isinstance(r, Module) and r.name == 'spectralDNS.solvers.' + s,
             'selecting %s gives %r' % (s, r), 'spectralDNS/__init__.py')
    for k, w in tab.items():
        expect(chk, '%s/default/%s' % (base, k), it, cfg, k, w, 'default')
    expect(chk, base + '/default/solver', it, cfg, 'solver', s, 'selected solver')
    chk.absorb(it, suspects=False)
    # all by update, in one and in two calls
    for split in (1, 2):
        it, cfg, top = fresh(mesh)
        new = {}
        for k in tab:
            a = alt(mesh, s, k)
            if a is not None:
                new[k] = symval(k, a[1])
        new['user_parameter'] = H.real('user_parameter')
        ks = list(new)
        if split == 1:
            upd(it, cfg, new, mesh)
        else:
            upd(it, cfg, {k: new[k] for k in ks[::2]}, mesh)
            upd(it, cfg, {k: new[k] for k in ks[1::2]}, mesh)
        sel(it, cfg, top, mesh, [s])
        for k, w in new.items():
            expect(chk, '%s/update%d/%s' % (base, split, k), it, cfg, k, w, 'given to config.update')
        chk.absorb(it, suspects=False)
    # one at a time: command line over update, others keep their values
    for k in tab:
        a = alt(mesh, s, k)
        if a is None:
            continue
        it, cfg, top = fresh(mesh)
        d = {q: symval(q, v) for q, v in tab.items() if isinstance(v, (int, Fraction)) and not isinstance(v, bool)}
        if k not in d:
            d[k] = tab[k]
        upd(it, cfg, d, mesh)
        sel(it, cfg, top, mesh, argv(mesh, s, k, a[0]))
        expect(chk, '%s/cmdline/%s' % (base, k), it, cfg, k, a[1], 'given on the command line')
        for q in tab:
            if q != k:
                w = d.get(q, tab[q])
                v = same(value(it, cfg, q), w)
                if v is False:
                    chk.bad('%s/cmdline/%s/%s' % (base, k, q), 'giving %s on the command line changed %s' % (k, q))


def choices(chk, mesh):
    s = [q for q in SOLVER[mesh] if q != 'Bq'][0]
    ch = dict(CHOICES)
    if mesh != 'channel':
        for q in ('Dquad', 'Bquad', 'Nquad'):
            ch.pop(q)
    ch['convection'] = CONV[mesh]
    if mesh in INTEG:
        ch['integrator'] = INTEG[mesh]
    for k, vs in ch.items():
        for v in vs:
            if mesh == 'channel' and v == 'single':
                continue
            it, cfg, top = fresh(mesh)
            try:
                sel(it, cfg, top, mesh, ['--' + k, v, s])
                expect(chk, '%s/choice/%s=%s' % (mesh, k, v), it, cfg, k, v, 'documented choice')
            except AbsRaise as e:
                chk.bad('%s/choice/%s=%s' % (mesh, k, v), 'documented choice rejected: %s %s' % (e.name, e.msg))
        for v in ('nonsense', vs[0][:2] + 'x', vs[0][:-1]):
            if v in vs:
                continue
            it, cfg, top = fresh(mesh)
            try:
                sel(it, cfg, top, mesh, ['--' + k, v, s])
                chk.bad('%s/reject/%s=%s' % (mesh, k, v), 'the invalid value %r of %s is accepted' % (v, k), 'spectralDNS/config.py')
            except AbsRaise as e:
                chk.ok('%s/reject/%s=%s' % (mesh, k, v))
    for k in list(NUM)[:4] + list(INTS):
        it, cfg, top = fresh(mesh)
        try:
            sel(it, cfg, top, mesh, ['--' + k, 'abc', s])
            chk.bad('%s/reject/%s' % (mesh, k), 'non-numeric value of %s accepted' % k, 'spectralDNS/config.py')
        except AbsRaise:
            chk.ok('%s/reject/%s' % (mesh, k))
    for toks in (['--nosuchoption', '1', s], ['NoSuchSolver']):
        it, cfg, top = fresh(mesh)
        try:
            sel(it, cfg, top, mesh, toks)
            chk.bad('%s/reject/%s' % (mesh, toks[0]), 'accepted', 'spectralDNS/config.py')
        except AbsRaise:
            chk.ok('%s/reject/%s' % (mesh, toks[0]))
    # values that are zero or empty are values, too
    zeros = dict(T=0, nu=0, t=0, tstep=0, make_profile=0, checkpoint=0, write_result=0, dt=0, ntol=0)
    it, cfg, top = fresh(mesh)
    upd(it, cfg, dict(zeros, mask_nyquist=False, verbose=False, h5filename=''), mesh)
    sel(it, cfg, top, mesh, [s])
    for k, w in dict(zeros, mask_nyquist=False, verbose=False, h5filename='').items():
        expect(chk, '%s/zero/update/%s' % (mesh, k), it, cfg, k, w, 'given to config.update')
    for k in zeros:
        it, cfg, top = fresh(mesh)
        upd(it, cfg, {k: 3}, mesh)
        sel(it, cfg, top, mesh, ['--' + k, '0', s])
        expect(chk, '%s/zero/cmdline/%s' % (mesh, k), it, cfg, k, 0, 'given on the command line')
    planner(chk, mesh, s)
    for k, neg in (('verbose', 'no-verbose'), ('mask_nyquist', 'no-mask_nyquist')):
        for d in (True, False):
            for tok, w in (('--' + k, True), ('--' + neg, False)):
                it, cfg, top = fresh(mesh)
                upd(it, cfg, {k: d}, mesh)
                sel(it, cfg, top, mesh, [tok, s])
                expect(chk, '%s/flag/%s/%s/%s' % (mesh, k, d, tok), it, cfg, k, w, 'switch')


def planner(chk, mesh, s):
    """planner_effort names single plans; the others keep theirs."""
    def at(key, k, w):
        v = it.get_item(value(it, cfg, 'planner_effort'), k, None)
        if isinstance(v, Top):
            chk.unknown(key, 'value unknown: %s' % v.why)
        else:
            chk.true(key, v == w, 'planner_effort[%r] is %r, required %r' % (k, v, w), 'spectralDNS/config.py')
    for way in ('default', 'update', 'cmdline'):
        it, cfg, top = fresh(mesh)
        try:
            if way == 'update':
                upd(it, cfg, {'planner_effort': ADict({'fft': 'FFTW_EXHAUSTIVE'})}, mesh)
            sel(it, cfg, top, mesh, (['--planner_effort', '{"fft": "FFTW_EXHAUSTIVE"}'] if way == 'cmdline' else []) + [s])
            at('%s/planner/%s/fft' % (mesh, way), 'fft', 'FFTW_MEASURE' if way == 'default' else 'FFTW_EXHAUSTIVE')
            at('%s/planner/%s/dct' % (mesh, way), 'dct', 'FFTW_MEASURE')
            at('%s/planner/%s/other' % (mesh, way), 'other', 'FFTW_MEASURE')
        except AbsRaise as e:
            chk.bad('%s/planner/%s' % (mesh, way), 'raises %s: %s' % (e.name, e.msg), 'spectralDNS/config.py')


def arrvals(v):
    if isinstance(v, Arr):
        return H.cells(v)
    return list(v)


def geometry(chk, mesh):
    nd = 2 if mesh == 'doublyperiodic' else 3
    s = [q for q in SOLVER[mesh] if q != 'Bq'][0]
    PI = M.PI
    ldef = [2*PI]*nd if mesh != 'channel' else [lift(2), 2*PI, 2*PI]

    def cmp(key, k, want):
        v = value(it, cfg, k)
        got = arrvals(v)
        if len(got) != len(want):
            chk.bad(key, '%s has %d entries' % (k, len(got)))
            return
        for i, (g, w) in enumerate(zip(got, want)):
            chk.eq('%s[%d]' % (key, i), g, w, 'spectralDNS/config.py', k)
    # defaults
    it, cfg, top = fresh(mesh)
    sel(it, cfg, top, mesh, [s])
    cmp(mesh + '/default/M', 'M', [6]*nd)
    cmp(mesh + '/default/N', 'N', [64]*nd)
    cmp(mesh + '/default/L', 'L', ldef)
    cmp(mesh + '/default/dx', 'dx', [l*X.inverse(lift(64)) for l in ldef])
    # command line
    it, cfg, top = fresh(mesh)
    sel(it, cfg, top, mesh, ['--M'] + ['4', '5', '7'][:nd] + ['--L'] + ['2*pi', '4*pi/3', '1.5'][:nd] + [s])
    Ls = [2*PI, PI*lift(Fraction(4, 3)), lift(Fraction(3, 2))][:nd]
    Ns = [16, 32, 128][:nd]
    cmp(mesh + '/cmdline/M', 'M', [4, 5, 7][:nd])
    cmp(mesh + '/cmdline/N', 'N', Ns)
    cmp(mesh + '/cmdline/L', 'L', Ls)
    cmp(mesh + '/cmdline/dx', 'dx', [l*X.inverse(lift(n)) for l, n in zip(Ls, Ns)])
    # update with symbolic lengths, explicit N
    it, cfg, top = fresh(mesh)
    L = [H.real('len%d' % i, 'pos') for i in range(nd)]
    N = [24, 36, 48][:nd]
    upd(it, cfg, {'L': AList(L), 'N': AList(N), 'M': AList([3]*nd)}, mesh)
    sel(it, cfg, top, mesh, [s])
    cmp(mesh + '/update/L', 'L', L)
    cmp(mesh + '/update/N', 'N', N)
    cmp(mesh + '/update/M', 'M', [3]*nd)
    cmp(mesh + '/update/dx', 'dx', [l*X.inverse(lift(n)) for l, n in zip(L, N)])
    # derived quantities follow when the mesh is changed
    it, cfg, top = fresh(mesh)
    sel(it, cfg, top, mesh, [s])
    p = cfg.env['params']
    for how, put in (('attr', it.set_attr), ('item', it.set_item)):
        for m, l in ((3, 'pi'), (5, '7')):
            put(p, 'M', AList([m]*nd), None)
            cmp('%s/change/%s/N%d' % (mesh, how, m), 'N', [2**m]*nd)
            put(p, 'L', AList([l]*nd), None)
            ll = PI if l == 'pi' else lift(7)
            cmp('%s/change/%s/dx%d' % (mesh, how, m), 'dx', [ll*lift(Fraction(1, 2**m))]*nd)
            # one of the two alone
            put(p, 'L', AList(['3']*nd), None)
            cmp('%s/change/%s/dxL%d' % (mesh, how, m), 'dx', [lift(Fraction(3, 2**m))]*nd)
            put(p, 'M', AList([m+1]*nd), None)
            cmp('%s/change/%s/dxM%d' % (mesh, how, m), 'dx', [lift(Fraction(3, 2**(m+1)))]*nd)
    # attribute and item assignment
    it, cfg, top = fresh(mesh)
    sel(it, cfg, top, mesh, [s])
    p = cfg.env['params']
    it.set_attr(p, 'N', AList([8]*nd), None)
    cmp(mesh + '/attr/N', 'N', [8]*nd)
    it.set_item(p, 'L', AList(['pi']*nd), None)
    cmp(mesh + '/item/L', 'L', [PI]*nd)
    it.set_attr(p, 'L', tuple(['3*pi']*nd), None)
    cmp(mesh + '/attr/L', 'L', [3*PI]*nd)
    it.set_attr(p, 'M', tuple([5]*nd), None)
    cmp(mesh + '/attr/M', 'M', [5]*nd)
    for bad in (['six']*nd, ['6.5']*nd):
        try:
            it.set_attr(p, 'M', AList(bad), None)
            chk.bad('%s/reject/M=%s' % (mesh, bad[0]), 'accepted')
        except AbsRaise:
            chk.ok('%s/reject/M=%s' % (mesh, bad[0]))
    chk.absorb(it, suspects=False)


def precision(chk):
    for prec, want in (('single', 'float32'), ('double', 'float64')):
        for mesh, s, ks in (('triplyperiodic', 'MHD', ('nu', 'dt', 'eta')), ('doublyperiodic', 'Bq2D', ('nu', 'dt', 'Ri', 'Pr')),
                            ('channel', 'KMM', ('nu', 'dt'))):
            if mesh == 'channel' and prec == 'single':
                continue
            it, cfg, top = fresh(mesh)
            upd(it, cfg, dict({k: H.real('v_' + k) for k in ks}, precision=prec), mesh)
            sel(it, cfg, top, mesh, [s])
            for k in ks:
                n0 = len(it.events)
                v = value(it, cfg, k)
                casts = [e.data[0] for e in it.events[n0:] if e.kind == 'cast']
                key = 'precision/%s/%s/%s' % (prec, s, k)
                if isinstance(v, Top) or isinstance(v, Arr):
                    chk.unknown(key, 'value %r' % (v,))
                    continue
                chk.true(key, casts[-1:] == [want] or (want == 'float64' and not casts),
                         'parameter %s is delivered as %s in %s precision' % (k, casts[-1:] or 'given', prec),
                         'spectralDNS/config.py (Params)')
                chk.eq(key + '/value', v, H.real('v_' + k))


def attributes(chk):
    """params.x and params['x'] are the same parameter."""
    it, cfg, top = fresh('triplyperiodic')
    sel(it, cfg, top, 'triplyperiodic', ['NS'])
    p = cfg.env['params']
    for k in ('nu', 'dt', 'T', 't', 'tstep', 'anything'):
        v = H.real('set_' + k)
        it.set_attr(p, k, v, None)
        chk.eq('attribute/%s/attr-item' % k, it.get_item(p, k, None), v, None, "params['%s'] after params.%s=" % (k, k))
        chk.eq('attribute/%s/attr' % k, it.get_attr(p, k, None), v)
        w = H.real('item_' + k)
        it.set_item(p, k, w, None)
        chk.eq('attribute/%s/item-attr' % k, it.get_attr(p, k, None), w, None, "params.%s after params['%s']=" % (k, k))
        chk.true('attribute/%s/in' % k, it.contains(p, k, None) is True, 'not in params')
    chk.absorb(it, suspects=False)
