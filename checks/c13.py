"""C13: result and checkpoint files."""
from .common import *  # noqa

RULE = ('spectralDNS.solve with the real HDF5File is abstractly interpreted for every solver over a grid of start steps, output '
        'and checkpoint intervals and file modes, with a stub integrator giving the solution fresh symbols at each step; an '
        'abstract disk records the symbolic contents of the files after every step, which must be exactly the snapshots, '
        'checkpoint data and attributes that are due.')
MINIMUM = 1000


def run(chk):
    for name in ALL_SOLVERS:
        sched = [(0, 1, 1, 3), (0, 2, 3, 7), (4, 3, 2, 6), (7, 10**8, 2, 4), (0, 3, 10**8, 4)]
        if chk.thorough:
            sched += [(s, w, c, 8) for s in (0, 1, 5) for w in (1, 2, 3, 4, 5) for c in (1, 2, 3, 4, 5)]
        for s in sched:
            key = '%s/start%d/write%d/check%d' % ((name,) + s[:3])
            with chk.guard(key):
                schedule(chk, key, name, *s)
        with chk.guard(name + '/append'):
            append(chk, name + '/append', name)
        with chk.guard(name + '/again'):
            again(chk, name + '/again', name)
        with chk.guard(name + '/custom'):
            custom(chk, name + '/custom', name)


def prepare(S, log, **kw):
    H.stale_all(S)
    for k in set(PREV.get(S.name, {}).values()):
        H.name_cells(S.c[k], 'I' + k)
    for j, v in enumerate(step_state(S)):
        H.name_cells(v, 'S%d@0.' % j)
    stub_state(S, log)
    k = Killer()

    def oracle(e):
        return k(e)
    S.it.config['oracle'] = oracle
    S.params.attrs.update(kw)
    return k


def schedule(chk, key, name, start, wr, cp, nsteps, fm='w'):
    S = load_solver(name, tstep=start, write_result=wr, checkpoint=cp, filemode=fm)
    it = S.it
    log = []
    prepare(S, log)
    P = S.params.attrs
    kill = it.config['oracle']
    clock = time_oracle({'Tend': S.vals['t'] + S.vals['dt']*nsteps})

    def oracle(e):
        if 'Tend' in {a.name for a in X.all_atoms(e) if a.kind == 'sym'}:
            return clock(e)
        return kill(e)
    it.config['oracle'] = oracle
    fobj = S.c['hdf5file']
    real = it.get_attr(fobj, 'update', None)
    prev = {k: list(H.cells(S.c[v])) for k, v in PREV.get(name, {}).items()}
    exp_w, exp_c, exp_attr = {}, {}, None
    fn = fobj.attrs['filename']
    nm = lambda x: '%s_%s' % (fn, x)
    hist = [prev]

    def check(it_, a, k, n):
        nonlocal exp_attr
        i = len(log)
        before = [list(H.cells(q)) for q in step_state(S)]
        it.call(real, a, k, n)
        kk = '%s/%d' % (key, i)
        after = [list(H.cells(q)) for q in step_state(S)]
        chk.true(kk + '/state', before == after, 'writing output changed the solution', 'spectralDNS/h5io/HDF5File.py')
        ts = start + i
        t = P['t']
        if ts % wr == 0:
            for f, v in result_fields(S).items():
                exp_w[(ts, f)] = v
        if ts % cp == 0:
            for f, arr in checkpoint_arrays(S).items():
                exp_c[(0, f)] = list(H.cells(arr))
            for f, v in hist[-1].items():
                exp_c[(1, f)] = v
            exp_attr = (ts, t)
        hist.append({f: list(H.cells(checkpoint_arrays(S)[f])) for f in PREV.get(name, {})})
        disk = it.config.get('disk', {})
        compare(chk, kk + '/results', disk.get(nm('w'), {'data': {}})['data'], exp_w, True)
        compare(chk, kk + '/checkpoint', disk.get(nm('c'), {'data': {}})['data'], exp_c, False)
        at = disk.get(nm('c'), {'attrs': {}})['attrs']
        want = exp_attr or (0, 0)
        if 'tstep' in at or exp_attr:
            chk.eq(kk + '/attr/tstep', at.get('tstep', -1), want[0], None, 'step stored with the checkpoint')
            chk.eq(kk + '/attr/t', at.get('t', -1), want[1], None, 'time stored with the checkpoint')
        for q in disk:
            if q not in (nm('w'), nm('c')):
                chk.bad(kk + '/file', 'writes an unexpected file %s' % q)
        for f in (fobj.attrs.get('cfile'), fobj.attrs.get('wfile')):
            if isinstance(f, M.MObj) and f.attrs.get('f') is not None:
                chk.bad(kk + '/open', 'a file is left open after the step, a crash loses its contents')
        return None
    fobj.attrs['update'] = Builtin('update', check)
    it.call(S.top.env['solve'], [S.solver, S.ctx], {}, None)
    chk.true(key + '/steps', len(log) == nsteps, 'took %d steps' % len(log))
    chk.absorb(it, suspects=True, key=key)


def compare(chk, key, got, want, scalar):
    """Abstract file contents against what is due."""
    for q in want:
        if q not in got:
            chk.bad('%s/%s/%s' % (key, q[0], q[1]), 'snapshot %s of %s is missing' % q, 'spectralDNS/h5io/HDF5File.py')
            continue
        v, sc = got[q]
        if len(v) != 1 or not isinstance(v[0], list) or len(v[0]) != len(want[q]):
            chk.bad('%s/%s/%s' % (key, q[0], q[1]), 'snapshot %s of %s has the wrong components' % q)
            continue
        if scalar and len(want[q]) > 1:
            chk.true('%s/%s/%s/scalar' % (key, q[0], q[1]), sc is True, 'results are not stored as scalars')
        for j, (g, w) in enumerate(zip(v[0], want[q])):
            chk.eq('%s/%s/%s[%d]' % (key, q[0], q[1], j), g, w, None, 'stored field %s' % q[1])
    for q in got:
        if q not in want and (scalar or q[0] == 0):
            chk.bad('%s/%s/%s' % (key, q[0], q[1]), 'snapshot %s of %s is not due' % q, 'spectralDNS/h5io/HDF5File.py')


def append(chk, key, name):
    """Appending keeps an existing checkpoint until it is replaced; writing anew removes it."""
    for mode in ('a', 'w'):
        S = load_solver(name, tstep=4, write_result=100, checkpoint=100, filemode=mode)
        it = S.it
        log = []
        prepare(S, log)
        fobj = S.c['hdf5file']
        fn = fobj.attrs['filename']
        old = X.sym('oldstep'), X.sym('oldtime'), X.sym('olddata')
        it.config['disk'] = {fn + '_c': {'attrs': {'tstep': old[0], 't': old[1]}, 'data': {(0, 'U'): ([[old[2]]], False)}},
                             fn + '_w': {'attrs': {}, 'data': {(2, 'U'): ([[old[2]]], True)}}}
        S.params.attrs['tstep'] = 5
        it.call(it.get_attr(fobj, 'update', None), [S.params], dict(S.c), None)
        c, w = it.config['disk'][fn + '_c'], it.config['disk'][fn + '_w']
        if mode == 'a':
            chk.eq(key + '/tstep', c['attrs'].get('tstep', -1), old[0], None, 'step of the existing checkpoint')
            chk.eq(key + '/t', c['attrs'].get('t', -1), old[1], None, 'time of the existing checkpoint')
            chk.true(key + '/data', (0, 'U') in c['data'] and (2, 'U') in w['data'], 'existing data lost in append mode')
        else:
            chk.true(key + '/new', not c['data'] and not w['data'], 'old data kept although a new file was requested')


def again(chk, key, name):
    """One file object serves consecutive runs, each with its own step count."""
    S = load_solver(name, tstep=0, write_result=2, checkpoint=3, filemode='w')
    it = S.it
    prepare(S, [])
    fobj = S.c['hdf5file']
    fn = fobj.attrs['filename']
    exp_w, exp_c, at = {}, {}, None
    for run, steps in enumerate(((6, 7, 8), (1, 2, 3, 4), (12, 15))):
        for ts in steps:
            S.params.attrs['tstep'] = ts
            S.params.attrs['t'] = X.sym('t@%d.%d' % (run, ts), (), ('real', 'nonneg'))
            for j, v in enumerate(step_state(S)):
                H.name_cells(v, 'S%d@%d.%d.' % (j, run, ts))
            it.call(it.get_attr(fobj, 'update', None), [S.params], dict(S.c), None)
            if ts % 2 == 0:
                for f, v in result_fields(S).items():
                    exp_w[(ts, f)] = v
            if ts % 3 == 0:
                for f, arr in checkpoint_arrays(S).items():
                    exp_c[(0, f)] = list(H.cells(arr))
                for f, v in PREV.get(name, {}).items():
                    exp_c[(1, f)] = list(H.cells(S.c[v]))
                at = (ts, S.params.attrs['t'])
            kk = '%s/run%d/%d' % (key, run, ts)
            disk = it.config.get('disk', {})
            compare(chk, kk + '/results', disk.get(fn + '_w', {'data': {}})['data'], exp_w, True)
            compare(chk, kk + '/checkpoint', disk.get(fn + '_c', {'data': {}})['data'], exp_c, False)
            if at:
                a = disk.get(fn + '_c', {'attrs': {}})['attrs']
                chk.eq(kk + '/attr/tstep', a.get('tstep', -1), at[0], None, 'step stored with the checkpoint')
                chk.eq(kk + '/attr/t', a.get('t', -1), at[1], None, 'time stored with the checkpoint')
        it.call(it.get_attr(fobj, 'close', None), [], {}, None)
    chk.absorb(it, suspects=True, key=key)


def custom(chk, key, name):
    """Users replace file name, result fields and update_components."""
    S = load_solver(name, tstep=0, write_result=2, checkpoint=3, filemode='w')
    it = S.it
    log = []
    prepare(S, log)
    fobj = S.c['hdf5file']
    it.set_attr(fobj, 'filename', 'mine', None)
    arr = S.c['U'] if isinstance(S.c.get('U'), Arr) else S.c['UB']
    comp = it.get_item(arr, 0, None)
    sl = AList([slice(None)]*(S.ndim-1) + [0])
    sl2 = AList([0] + [slice(None)]*(S.ndim-1))
    it.get_attr(fobj, 'results', None)['data'] = ADict({'Q': AList([comp]), 'Z': AList([(comp, sl)]), 'W': AList([comp, (comp, sl), (comp, sl2), comp])})
    calls = []

    def uc(it_, a, k, n):
        calls.append((S.params.attrs['tstep'], a, k))
        H.name_cells(comp, 'Q@%d' % S.params.attrs['tstep'], ('real',))
    it.set_attr(fobj, 'update_components', Builtin('update_components', uc), None)
    want = {}
    for ts in range(1, 7):
        S.params.attrs['tstep'] = ts
        it.call(it.get_attr(fobj, 'update', None), [S.params], dict(S.c), None)
        if ts % 2 == 0:
            want[ts] = X.sym('Q@%d' % ts, H.axes_of(comp), ('real',))
    chk.absorb(it, suspects=False)
    disk = it.config.get('disk', {})
    chk.true(key + '/name', set(disk) <= {'mine_w', 'mine_c'} and 'mine_w' in disk and 'mine_c' in disk,
             'files %s written for the file name "mine"' % sorted(disk))
    d = disk.get('mine_w', {'data': {}})['data']
    chk.true(key + '/calls', [c[0] for c in calls] == sorted(want), 'update_components called at steps %s' % [c[0] for c in calls])
    for c in calls[:1]:
        chk.true(key + '/context', not c[1] and set(c[2]) == set(S.c), 'update_components is not given the context')
    for ts, w in want.items():
        for f in ('Q', 'Z'):
            v = d.get((ts, f))
            if v is None:
                chk.bad('%s/%s/%d' % (key, f, ts), 'field %s not stored at step %d' % (f, ts))
                continue
            x = v[0][0]
            if f == 'Z':
                ok = isinstance(x, tuple) and x[0] == 'slice' and list(x[2]) == list(sl)
                chk.true('%s/%s/%d/slice' % (key, f, ts), ok, 'slice not stored as requested')
                x = x[1] if ok else [lift(0)]
            chk.eq('%s/%s/%d' % (key, f, ts), x[0], w, None, 'user defined result')
        v = d.get((ts, 'W'))
        ok = v is not None and len(v[0]) == 4 and isinstance(v[0][1], tuple) and isinstance(v[0][2], tuple) and \
            list(v[0][1][2]) == list(sl) and list(v[0][2][2]) == list(sl2)
        chk.true('%s/W/%d' % (key, ts), ok, 'a field list of four entries is not stored entry by entry')
        if ok:
            for j, x in enumerate(v[0]):
                x = x[1] if isinstance(x, tuple) else x
                chk.eq('%s/W/%d/%d' % (key, ts, j), x[0], w, None, 'user defined result')
    chk.true(key + '/nothing-else', set(d) == {(ts, f) for ts in want for f in ('Q', 'Z', 'W')}, 'snapshots %s' % sorted(d, key=str))
