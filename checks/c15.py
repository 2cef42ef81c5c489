"""C15: stopping a run by the file killspectraldns."""
from .common import *  # noqa

RULE = ('HDF5File.update is abstractly interpreted for every solver on rank 0 and on another rank under every combination of '
        '{stop file seen by this rank, seen by some other rank, absent} x {checkpoint due, not due} x {output due, not due}. '
        'Decisions must depend on a reduction over all ranks only; an abstract disk and the event order decide that the '
        'checkpoint is complete before the exit, that the exit status is nonzero and that exactly rank 0 removes the file.')
MINIMUM = 300


def run(chk):
    for name in ALL_SOLVERS:
        for rank in (0, 1):
            for due in (True, False):
                for wdue in (True, False):
                    for local, glob in ((False, False), (True, True), (False, True)):
                        key = '%s/rank%d/%s/%s/%s' % (name, rank, 'due' if due else 'notdue', 'w' if wdue else 'now',
                                                      'none' if not glob else 'here' if local else 'elsewhere')
                        with chk.guard(key):
                            one(chk, key, name, rank, due, wdue, local, glob)
        for rank in (0, 1):
            # the status is the exit status of the process: modulo 256
            key = '%s/rank%d/step256' % (name, rank)
            with chk.guard(key):
                one(chk, key, name, rank, True, False, True, True, 256)
        with chk.guard(name + '/loop'):
            loop(chk, name + '/loop', name)


def one(chk, key, name, rank, due, wdue, local, glob, step=6):
    S = load_solver(name, rank=rank, tstep=step, write_result=3 if wdue else 5, checkpoint=2 if due else 4, filemode='w')
    it = S.it
    H.stale_all(S)
    for j, v in enumerate(step_state(S)):
        H.name_cells(v, 'S%d@6.' % j)
    for k in set(PREV.get(S.name, {}).values()):
        H.name_cells(S.c[k], 'I' + k)
    kl = Killer()
    kl.local, kl.anyrank = local, glob
    it.config['oracle'] = kl
    fobj = S.c['hdf5file']
    code = None
    stopped = False
    n0 = len(it.events)
    try:
        it.call(it.get_attr(fobj, 'update', None), [S.params], dict(S.c), None)
    except AbsRaise as e:
        if e.name != 'SystemExit':
            raise
        stopped = True
    chk.absorb(it, suspects=True, key=key)
    ev = it.events[n0:]
    # collective operations must not depend on rank-local knowledge
    for e in ev:
        if e.kind == 'mpi' or (e.kind == 'file' and e.data[0] in ('create', 'open', 'close', 'write', 'attr-set', 'attr-create')) \
                or e.kind == 'exit':
            for c in e.ctrl or ():
                if isinstance(c, Expr) and X.rank_local(c) or isinstance(c, tuple) and any(isinstance(q, Expr) and X.rank_local(q) for q in c):
                    chk.bad(key + '/uniform', '%s happens only on ranks where %s' % (e.kind, c), e.loc)
    exits = [e for e in ev if e.kind == 'exit']
    rem = [e for e in ev if e.kind == 'fs' and e.data[0] == 'remove']
    fn = fobj.attrs['filename']
    disk = it.config.get('disk', {})
    c = disk.get(fn + '_c', {'attrs': {}, 'data': {}})
    w = disk.get(fn + '_w', {'attrs': {}, 'data': {}})
    if glob:
        chk.true(key + '/stops', stopped, 'the run goes on although the stop file was found', 'spectralDNS/h5io/HDF5File.py')
        if exits:
            a = exits[-1].data
            v = a[0] if a else 0
            chk.true(key + '/status', v not in (0, None, False) and not (isinstance(v, (int, Fraction)) and v % 256 == 0), 'exit status %r signals success' % (v,), exits[-1].loc)
            late = [e for e in ev[ev.index(exits[-1])+1:]]
            chk.true(key + '/last', not late, 'actions after the exit')
    else:
        chk.true(key + '/goes-on', not stopped and not exits, 'the run stops without a stop file', 'spectralDNS/h5io/HDF5File.py')
    if glob or due:
        for f, arr in checkpoint_arrays(S).items():
            got = c['data'].get((0, f))
            if got is None:
                chk.bad('%s/data/%s' % (key, f), 'the checkpoint lacks %s' % f, 'spectralDNS/h5io/HDF5File.py')
                continue
            for j, (g, q) in enumerate(zip(got[0][0], H.cells(arr))):
                chk.eq('%s/data/%s[%d]' % (key, f, j), g, q)
        for f, h in PREV.get(name, {}).items():
            got = c['data'].get((1, f))
            if got is None:
                chk.bad('%s/previous/%s' % (key, f), 'the checkpoint lacks the previous step of %s' % f)
                continue
            for j, (g, q) in enumerate(zip(got[0][0], H.cells(S.c[h]))):
                chk.eq('%s/previous/%s[%d]' % (key, f, j), g, q)
        chk.eq(key + '/tstep', c['attrs'].get('tstep', -1), S.params.attrs['tstep'], None, 'step of the checkpoint')
        chk.eq(key + '/t', c['attrs'].get('t', -1), S.params.attrs['t'], None, 'time of the checkpoint')
    else:
        chk.true(key + '/no-checkpoint', not c['data'], 'checkpoint written although not due')
    chk.true(key + '/results', bool(w['data']) == wdue, 'results %s although %s' % (
        'written' if w['data'] else 'not written', 'due' if wdue else 'not due'))
    if glob and rank == 0:
        chk.true(key + '/removed', len(rem) == 1 and str(rem[0].data[1][0]).split('/')[-1] == 'killspectraldns',
                 'rank 0 removes %s' % [r.data[1] for r in rem])
    else:
        chk.true(key + '/not-removed', not rem, 'the stop file is removed %s' % (
            'by another rank than 0' if glob else 'though it was not found'))


def loop(chk, key, name):
    """The file is looked for at every step, whatever the intervals."""
    S = load_solver(name, tstep=0, write_result=100, checkpoint=100, filemode='w')
    it = S.it
    H.stale_all(S)
    it.config['oracle'] = Killer()
    fobj = S.c['hdf5file']
    for ts in range(1, 5):
        S.params.attrs['tstep'] = ts
        n0 = len(it.events)
        it.call(it.get_attr(fobj, 'update', None), [S.params], dict(S.c), None)
        looks = [e for e in it.events[n0:] if e.kind == 'fs' and e.data[0] in ('listdir', 'exists')]
        reds = [e for e in it.events[n0:] if e.kind == 'mpi']
        chk.true('%s/%d/looks' % (key, ts), bool(looks), 'the stop file is not looked for at step %d' % ts)
        chk.true('%s/%d/agrees' % (key, ts), bool(reds), 'the ranks do not agree at step %d' % ts)
