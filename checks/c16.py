"""C16: all ranks take the same sequence of collective operations."""
from .common import *  # noqa
from .c19 import FIELDS

RULE = ('get_solver and a complete run of spectralDNS.solve (two or more steps with output, checkpoint, adaptive step sizes with '
        'rejected steps, stop file, final reductions) are abstractly interpreted as rank 0 and as another rank.  The sequences of '
        'collective operations (function spaces, transforms, reductions, file operations, exit) must be identical, and no '
        'collective operation may be control dependent on a value that can differ between ranks (fields, local sizes, wall '
        'clock times, directory listings) unless it went through a reduction over all ranks.')
MINIMUM = 100
PERIODIC = ('NS', 'VV', 'MHD', 'NS2D', 'Bq2D')
FILEOPS = ('open', 'close', 'write', 'create', 'attr-create', 'attr-set')


def differs(e):
    """Atoms outside reductions whose value may differ between ranks."""
    out, seen = set(), set()

    def walk(x):
        for a in x.atoms():
            if a in seen:
                continue
            seen.add(a)
            if a.kind == 'fun' and isinstance(a.name, str) and a.name.startswith('mpi_'):
                continue
            if a.kind == 'sym' and ('local' in a.flags or a.dep or str(a.name).startswith('file:')):
                out.add(a)
            for y in a.args:
                if isinstance(y, Expr):
                    walk(y)
    if isinstance(e, Expr):
        walk(e)
    return out


def run(chk):
    for name in ALL_SOLVERS:
        per = name in PERIODIC
        for dealias in ('2/3-rule', '3/2-rule'):
            for dec in ('slab', 'pencil') if chk.thorough or dealias == '3/2-rule' else ('slab',):
                forms = {'NS': ('Vortex', 'Standard', 'Divergence', 'Skewed'), 'MHD': ('Divergence',)}.get(
                    name, ('Vortex',) if per else ('Vortex', 'Standard', 'Divergence', 'Skew'))
                for conv in forms:
                    over = dict(dealias=dealias, decomposition=dec, convection=conv)
                    key = '%s/%s/%s/%s' % (name, dealias, dec, conv)
                    if per:
                        over['integrator'] = 'ForwardEuler'
                    whole(chk, key, name, over)
        if per:
            for integ in ('RK4', 'AB2', 'BS5_fixed', 'BS5_adaptive'):
                for rej in ((0, 1) if integ == 'BS5_adaptive' else (0,)):
                    over = dict(integrator=integ)
                    if name == 'MHD':
                        over['convection'] = 'Divergence'
                    whole(chk, '%s/%s/rejected%d' % (name, integ, rej), name, over, rej, stub=True)
        whole(chk, name + '/stop-file', name, dict(integrator='ForwardEuler') if per else {}, 0, stub=True, kill=True)
        base = dict(integrator='ForwardEuler') if per else {}
        for tag, over in (('append', dict(filemode='a')), ('seldom', dict(write_result=2, checkpoint=2)),
                          ('quiet', dict(verbose=False, make_profile=0)), ('restart', dict(filemode='a', tstep=7)),
                          ('single', dict(precision='single')), ('mask', dict(mask_nyquist=False))):
            if tag == 'single' and not per:
                continue
            whole(chk, '%s/%s' % (name, tag), name, dict(base, **over), stub=True)
        for fn in FIELDS[name]:
            with chk.guard('%s/%s' % (name, fn)):
                field(chk, '%s/%s' % (name, fn), name, fn)
    for f in ('MemoryUsage', 'dx'):
        with chk.guard('utilities/' + f):
            util(chk, 'utilities/' + f, f)


def whole(chk, key, name, over, rej=0, stub=False, kill=False):
    with chk.guard(key):
        logs = []
        sent = []
        for rank in (0, 1):
            logs.append(one(chk, '%s/rank%d' % (key, rank), name, rank, over, rej, stub, kill, sent))
        compare(chk, key, logs)


def compare(chk, key, logs):
    a, b = logs
    for i in range(max(len(a), len(b))):
        x = a[i] if i < len(a) else ('nothing', None)
        y = b[i] if i < len(b) else ('nothing', None)
        if x[0] != y[0]:
            chk.bad(key + '/sequence', 'collective operation %d: rank 0 does %s (%s), another rank does %s (%s)' % (
                i, x[0], x[1], y[0], y[1]), x[1] or y[1])
            return
    chk.true(key + '/nonempty', len(a) > 0, 'no collective operation seen')
    chk.ok(key + '/sequence')


def describe(e):
    d = e.data
    if e.kind == 'transform':
        return 'transform %s %s%s' % (d[0], d[1].sig() if hasattr(d[1], 'sig') else '', d[3])
    if e.kind == 'mpi':
        return 'mpi %s(%s)' % (d[0], ', '.join(str(q) for q in d[1][1:]) if d[0] not in ('Reduce', 'Allreduce', 'Bcast') else '')
    if e.kind == 'file':
        extra = ''
        if d[0] == 'write':
            fl = d[2][1] if len(d[2]) > 1 else None
            extra = ' step %s fields %s' % (d[2][0] if d[2] else '', sorted(fl) if isinstance(fl, dict) else '')
        elif d[0].startswith('attr'):
            extra = ' %s' % (d[2][0] if d[2] else sorted(d[3].items(), key=str)[:1])
        return 'file %s %s%s' % (d[0], d[1], extra)
    return e.kind


def collective(e):
    return e.kind in ('transform', 'mpi', 'exit') or e.kind == 'space' or e.kind == 'file' and e.data[0] in FILEOPS


def scan(chk, key, events):
    out, unk = [], []
    bad = 0
    for e in events:
        if not collective(e):
            if e.kind == 'cond-break' and differs(e.data):
                chk.bad(key + '/uniform', 'a loop is left on a condition that can differ between ranks: %s' % names(e.data), e.loc)
            continue
        out.append((describe(e), e.loc))
        for c in e.ctrl or ():
            v = c[0] if isinstance(c, tuple) else c
            d = differs(v)
            if not d and isinstance(v, Expr) and not unk:
                unk = [a for a in X.all_atoms(v) if 'unknown' in a.flags]
            if d and not bad:
                bad = 1
                chk.bad(key + '/uniform', '%s is executed depending on %s, which can differ between ranks' % (
                    describe(e), names(v)), e.loc)
        if e.kind == 'file' and e.data[0] == 'attr-set' and len(e.data[2]) > 1 and differs(e.data[2][1]):
            chk.bad(key + '/attr', 'attribute %s is set to a value that can differ between ranks (%s)' % (
                e.data[2][0], names(e.data[2][1])), e.loc)
    if unk and not bad:
        chk.unknown(key + '/uniform', 'a collective operation depends on an unmodelled condition')
    elif not bad:
        chk.ok(key + '/uniform')
    return out


def names(e):
    return ', '.join(sorted({str(a.name) for a in differs(e)})[:5])


def one(chk, key, name, rank, over, rej, stub, kill, sent):
    if name == 'MHD':
        over = dict(over, convection='Divergence')
    S = load_solver(name, rank=rank, **dict(dict(write_result=1, checkpoint=1, tstep=0, filemode='w'), **over))
    it = S.it
    setup_state(S)
    if rank:
        it.config['bcast_log'] = list(sent)
    P = S.params.attrs
    nsteps = 2
    clock = time_oracle({'Tend': S.vals['t'] + S.vals['dt']*nsteps})
    kl = Killer()
    kl.local, kl.anyrank = kill and rank == 1, kill
    ts0 = P['tstep']
    seen = []

    def oracle(e):
        if differs(e):
            return None                 # left to the interpreter: both outcomes
        syms = {a.name for a in X.all_atoms(e) if a.kind == 'sym'}
        r = kl(e)
        if r is not None:
            return r
        # a reduced quantity compared with a threshold: the error estimate
        if any(a.kind == 'fun' and str(a.name).startswith('mpi_') for a in X.all_atoms(e)):
            def val(a):
                if a.kind != 'ind' or a.name not in ('gt0', 'eq0'):
                    return None
                if a.name == 'eq0':
                    return False
                k = [(m, c) for m, c in a.args[0].t.items() if m != ()]
                if len(k) != 1:
                    return None
                if k[0][0] not in seen:
                    seen.append(k[0][0])
                return (k[0][1] > 0) == (seen.index(k[0][0]) < rej)
            return decide_ind(e, val)
        if 'Tend' in syms:
            v = clock(e)
            if v is None:
                return I.far_decide(e, 1 if P['tstep'] - ts0 < nsteps else -1)
            return v
        return None
    it.config['oracle'] = oracle
    if stub:
        n = [0]

        def rhs_hook(it_, a, k, nd):
            n[0] += 1
            # one transform each way stands for the evaluation
            H.name_cells(a[0], 'F%d_' % n[0])
            return a[0]
        S.solver.env['ComputeRHS'] = Builtin('ComputeRHS', rhs_hook)
        if name not in PERIODIC:
            stub_state(S, [])
    else:
        cut(S)
    f = S.top.env.get('solve')
    if f is None:
        raise AnalysisError('anchor vanished: spectralDNS.solve')
    upd = [0]

    def update(it_, a, k, nd):
        upd[0] += 1
        # values computed so far are just some fields from here on
        for q, v in enumerate(primary(S)):
            H.name_cells(v, 'S%d@%d.' % (q, upd[0]))
        for k_ in ('H_hat1', 'H_hat0', 'U_hat0', 'UP_hat0', 'phi_hat0', 'phi_hat1'):
            if isinstance(S.c.get(k_), Arr):
                H.name_cells(S.c[k_], '%s@%d.' % (k_, upd[0]))
        if isinstance(P['dt'], Expr) and len(X.all_atoms(P['dt'])) > 1:
            d = differs(P['dt'])
            chk.true(key + '/dt', not d, 'the step size depends on %s, which can differ between ranks' % names(P['dt']), it.loc(nd))
            P['dt'] = H.real('h%d' % upd[0], 'pos')
        if upd[0] > 8:
            raise AnalysisError('run does not end')
        return None
    S.solver.env['update'] = Builtin('update', update)
    try:
        it.call(f, [S.solver, S.ctx], {}, None)
    except AbsRaise as e:
        if e.name != 'SystemExit':
            raise
    chk.absorb(it, suspects=False)
    if not rank:
        sent.extend(e.data[1][0] for e in it.events if e.kind == 'mpi' and e.data[0] == 'bcast')
    chk.true(key + '/ran', upd[0] >= 1, 'no step was taken')
    return scan(chk, key, it.events)


def cut(S):
    """Every evaluation of the convection starts from fresh symbols and gives
    fresh symbols (values do not matter here, only the operations)."""
    real_get = S.solver.env.get('getConvection')
    n = [0]

    def get(it, a, k, nd):
        f = it.call(real_get, a, k, nd)

        def conv(it_, a, k, nd):
            n[0] += 1
            for q, v in enumerate(primary(S)):
                H.name_cells(v, 'C%d@%d.' % (q, n[0]))
            r = it_.call(f, a, k, nd)
            if isinstance(r, Arr):
                H.name_cells(r, 'R%d.' % n[0])
            return r
        return Builtin('conv', conv)
    S.solver.env['getConvection'] = Builtin('getConvection', get)


def field(chk, key, name, fn):
    logs = []
    for rank in (0, 1):
        S = load_solver(name, rank=rank, dealias='3/2-rule')
        setup_state(S)
        f = S.it.get_attr(S.solver, fn, None)
        n0 = len(S.it.events)
        S.it.call(f, [], dict(S.c), None)
        chk.absorb(S.it, suspects=False)
        logs.append(scan(chk, '%s/rank%d' % (key, rank), S.it.events[n0:]))
    compare(chk, key, logs)


def util(chk, key, fname):
    logs = []
    for rank in (0, 1):
        S = load_solver('KMM', rank=rank)
        it = S.it
        setup_state(S)
        f = it.import_module('spectralDNS.utilities').env.get(fname)
        n0 = len(it.events)
        if fname == 'dx':
            u = S.c['U'] if isinstance(S.c.get('U'), Arr) else S.c['u_dealias']
            it.call(f, [it.get_item(u, 0, None), S.c['FST']], {}, None)
        else:
            o = it.call(f, ['x'], {}, None)
            it.call(o, ['y'], {}, None)
        chk.absorb(it, suspects=False)
        logs.append(scan(chk, '%s/rank%d' % (key, rank), it.events[n0:]))
    compare(chk, key, logs)
