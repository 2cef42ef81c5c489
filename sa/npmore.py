"""Further numpy functions on component axes (spatial axes stay symbolic).

Only forms whose meaning is fixed by the component (leading, concrete) axes are
evaluated; every other use stays unknown."""
import itertools
from fractions import Fraction

from . import expr as X
from .expr import Expr, lift
from .values import Arr, Top, AList, to_expr, simp, AbsRaise
from . import models as M


npf, arrm, extf = M.npf, M.arrm, M.extf
seq = M.seq_arg


def _ci(v):
    if isinstance(v, Expr):
        v = simp(v)
    return v if isinstance(v, int) and not isinstance(v, bool) else None


def _comp_axis(x, axis):
    """Normalised axis if it is a component axis."""
    axis = _ci(axis)
    if not isinstance(x, Arr) or axis is None:
        return None
    nd = len(x.shape)
    if not -nd <= axis < nd:
        return None
    axis %= nd
    return axis if axis < len(x.cshape) else None


def _pick(it, x, axis, rows, n):
    """x with the given rows of component axis `axis`."""
    sh = x.cshape[:axis] + (len(rows),) + x.cshape[axis+1:]
    r = it.new_arr(sh, x.dims, x.dtype, space=None)
    vals = it.arr_get(x)
    idx = {}
    for p, q in enumerate(itertools.product(*[range(c) for c in x.cshape])):
        idx[q] = p
    r.store.cells = [vals[idx[q[:axis] + (rows[q[axis]],) + q[axis+1:]]] for q in itertools.product(*[range(c) for c in sh])]
    r.axes = tuple(range(len(r.dims)))
    return r


def _plain(x):
    """Spatial axes in storage order, nothing fixed: values can be moved to a fresh array."""
    return isinstance(x, Arr) and x.axes == tuple(range(len(x.dims))) and not x.fixed and not getattr(x, 'ivs', ())


@npf('take')
def np_take(it, a, k, n):
    x, ind, axis = M.bindkw(a, {q: v for q, v in k.items() if q in ('a', 'indices', 'axis')}, ['a', 'indices', 'axis'], [None])
    x = seq(it, x, n)
    if axis is None and isinstance(x, Arr) and len(x.shape) == 1:
        axis = 0
    c = _comp_axis(x, axis)
    if c is None:
        return it.top('numpy.take', n)
    if isinstance(ind, Arr) and not ind.dims and len(ind.cshape) == 1:
        ind = [simp(q) if isinstance(q, Expr) else q for q in it.arr_get(ind)]
    if _ci(ind) is not None:
        r = it.get_item(x, (slice(None),)*c + (_ci(ind),), n)
        r = it.copy_arr(r, keep=False) if isinstance(r, Arr) else r
    elif isinstance(ind, (list, tuple)) and all(_ci(q) is not None for q in ind) and _plain(x):
        m = x.cshape[c]
        if any(not -m <= _ci(q) < m for q in ind):
            raise AbsRaise('IndexError', 'index out of bounds', n)
        r = _pick(it, x, c, [_ci(q) % m for q in ind], n)
    else:
        return it.top('numpy.take', n)
    return M.ufunc_out(it, r, k.get('out'), {}, n)


@npf('roll')
def np_roll(it, a, k, n):
    x, sh, axis = M.bindkw(a, k, ['a', 'shift', 'axis'], [None])
    x = seq(it, x, n)
    if axis is None and isinstance(x, Arr) and len(x.shape) == 1:
        axis = 0
    c = _comp_axis(x, axis)
    if c is None or _ci(sh) is None or not _plain(x):
        return it.top('numpy.roll', n)
    m = x.cshape[c]
    return _pick(it, x, c, [(i - _ci(sh)) % m for i in range(m)], n)


@npf('flip')
def np_flip(it, a, k, n):
    x, axis = M.bindkw(a, k, ['m', 'axis'], [None])
    x = seq(it, x, n)
    if axis is None and isinstance(x, Arr) and len(x.shape) == 1:
        axis = 0
    c = _comp_axis(x, axis)
    if c is None or not _plain(x):
        return it.top('numpy.flip', n)
    return _pick(it, x, c, list(range(x.cshape[c]))[::-1], n)


@npf('flipud')
def np_flipud(it, a, k, n):
    return np_flip(it, [a[0], 0], {}, n)


@npf('repeat')
def np_repeat(it, a, k, n):
    x, rep, axis = M.bindkw(a, k, ['a', 'repeats', 'axis'], [None])
    x = seq(it, x, n)
    if axis is None and isinstance(x, Arr) and len(x.shape) == 1:
        axis = 0
    c = _comp_axis(x, axis)
    if c is None or _ci(rep) is None or not _plain(x):
        return it.top('numpy.repeat', n)
    return _pick(it, x, c, [i for i in range(x.cshape[c]) for _ in range(_ci(rep))], n)


@npf('tile')
def np_tile(it, a, k, n):
    x, rep = M.bindkw(a, k, ['A', 'reps'])
    x = seq(it, x, n)
    if not isinstance(x, Arr) or x.dims or len(x.cshape) != 1 or _ci(rep) is None:
        return it.top('numpy.tile', n)
    return _pick(it, x, 0, list(range(x.cshape[0]))*_ci(rep), n)


def _permute(it, x, perm, n):
    nd = len(x.shape)
    nc = len(x.cshape)
    if list(perm) == list(range(nd)):
        return M.arr_attr(it, x, 'v', n) if x.space is None else it.index_arr(x, Ellipsis, n)
    if list(perm[nc:]) != list(range(nc, nd)) or not _plain(x):
        return it.top('permuted array', n)
    sh = tuple(x.cshape[p] for p in perm[:nc])
    r = it.new_arr(sh, x.dims, x.dtype)
    vals = it.arr_get(x)
    idx = {q: p for p, q in enumerate(itertools.product(*[range(c) for c in x.cshape]))}
    cells = []
    for q in itertools.product(*[range(c) for c in sh]):
        src = [0]*nc
        for i, p in enumerate(perm[:nc]):
            src[p] = q[i]
        cells.append(vals[idx[tuple(src)]])
    r.store.cells = cells
    return r


def _axes_perm(kind, a, nd):
    if kind == 'transpose':
        p = a[0] if len(a) == 1 and isinstance(a[0], (list, tuple)) else a
        p = [_ci(q) for q in p] if p and p[0] is not None else list(range(nd))[::-1]
    elif kind == 'swapaxes':
        p = list(range(nd))
        i, j = _ci(a[0]), _ci(a[1])
        if i is None or j is None:
            return None
        p[i], p[j] = p[j], p[i]
    elif kind == 'moveaxis':
        s, d = _ci(a[0]), _ci(a[1])
        if s is None or d is None:
            return None
        p = [q for q in range(nd) if q != s % nd]
        p.insert(d % nd, s % nd)
    else:               # rollaxis
        s, d = _ci(a[0]), _ci(a[1]) if len(a) > 1 else 0
        if s is None or d is None:
            return None
        s, d = s % nd, d if d >= 0 else d + nd
        p = [q for q in range(nd) if q != s]
        p.insert(d - 1 if s < d else d, s)
    if any(q is None for q in p) or sorted(q % nd for q in p) != list(range(nd)):
        return None
    return [q % nd for q in p]


def permuter(kind):
    def f(it, a, k, n):
        x = seq(it, a[0], n)
        if not isinstance(x, Arr) or set(k) - {'axes', 'axis1', 'axis2', 'source', 'destination', 'axis', 'start'}:
            return it.top('permuted array', n)
        b = list(a[1:]) + [k[q] for q in ('axes', 'axis1', 'axis2', 'source', 'destination', 'axis', 'start') if q in k]
        try:
            p = _axes_perm(kind, b, len(x.shape))
        except (IndexError, TypeError):
            p = None
        if p is None:
            return it.top('permuted array', n)
        return _permute(it, x, p, n)
    return f


for _q in ('transpose', 'swapaxes', 'moveaxis', 'rollaxis'):
    M.NPF[_q] = permuter(_q)
for _q in ('transpose', 'swapaxes'):
    M.ARRM[_q] = (lambda f: lambda it, o, a, k, n: f(it, [o] + list(a), k, n))(M.NPF[_q])


def np_squeeze(it, a, k, n):
    x = seq(it, a[0], n)
    if not isinstance(x, Arr) or len(a) > 1 or k or 1 in x.cshape and not _plain(x) or any(M._one(d) for d in x.dims):
        return it.top('squeeze', n)
    if 1 not in x.cshape:
        return it.index_arr(x, Ellipsis, n)
    return it.get_item(x, tuple(0 if c == 1 else slice(None) for c in x.cshape), n)


M.NPF['squeeze'] = np_squeeze
M.ARRM['squeeze'] = lambda it, o, a, k, n: np_squeeze(it, [o] + list(a), k, n)


def am_view(it, o, a, k, n):
    if a or k:
        d = M.dtype_of(a[0] if a else k.get('dtype'))
        if d is None or d != o.dtype:
            return it.top('array method', n)
    return it.index_arr(o, Ellipsis, n)


M.ARRM['view'] = am_view


def same_shape(it, x, sh):
    from .interp import same_dim
    return len(sh) == len(x.shape) and all(same_dim(lift(p), lift(q)) for p, q in zip(sh, x.shape))


def am_reshape(it, o, a, k, n):
    sh = a[0] if len(a) == 1 else tuple(a)
    sh = tuple(sh) if isinstance(sh, (list, tuple)) else (sh,)
    sh = tuple(_ci(q) if _ci(q) is not None else q for q in sh)
    if any(not isinstance(q, (int, Expr)) for q in sh):
        return it.top('array method', n)
    if -1 not in sh and same_shape(it, o, sh):
        return it.index_arr(o, Ellipsis, n)
    nc, nd = len(o.cshape), len(o.dims)
    lead = sh[:len(sh) - nd]
    tail = sh[len(sh) - nd:]
    from .interp import same_dim
    if all(not (isinstance(p, int) and p == -1) and same_dim(lift(p), lift(q)) for p, q in zip(tail, o.dims)) and _plain(o) and \
            all(isinstance(q, int) for q in lead):
        m = 1
        for c in o.cshape:
            m *= c
        known = 1
        for q in lead:
            if q != -1:
                known *= q
        lead = tuple(m//known if q == -1 else q for q in lead)
        p = 1
        for q in lead:
            p *= q
        if p != m:
            raise AbsRaise('ValueError', 'cannot reshape array', n)
        v = Arr(o.store, lead, o.idx, o.dims, o.fixed, o.axes, None, None)
        v.ivs = getattr(o, 'ivs', ())
        return v
    return it.top('array method', n)


M.ARRM['reshape'] = am_reshape


def np_reshape(it, a, k, n):
    x = seq(it, a[0], n)
    sh = a[1] if len(a) > 1 else k.get('newshape', k.get('shape'))
    return am_reshape(it, x, [sh], {}, n) if isinstance(x, Arr) else it.top('reshape', n)


M.NPF['reshape'] = np_reshape


def am_ravel(it, o, a, k, n):
    if not o.dims:
        m = 1
        for c in o.cshape:
            m *= c
        return am_reshape(it, o, [(m,)], {}, n)
    return it.top('array method', n)


M.ARRM['ravel'] = am_ravel
M.ARRM['flatten'] = lambda it, o, a, k, n: it.copy_arr(am_ravel(it, o, a, k, n), keep=False) if not o.dims else it.top('array method', n)
M.NPF['ravel'] = lambda it, a, k, n: am_ravel(it, seq(it, a[0], n), [], {}, n) if isinstance(seq(it, a[0], n), Arr) else it.top('ravel', n)


def am_tolist(it, o, a, k, n):
    if o.dims:
        return it.top('array method', n)

    def build(x):
        if not isinstance(x, Arr):
            return x
        return AList([build(it.get_item(x, i, n)) for i in range(x.cshape[0])]) if x.cshape else it.arr_get(x)[0]
    return build(o)


M.ARRM['tolist'] = am_tolist
M.ARRM['take'] = lambda it, o, a, k, n: np_take(it, [o] + list(a), k, n)
M.ARRM['dot'] = lambda it, o, a, k, n: M.NPF['dot'](it, [o] + list(a), k, n)
M.ARRM['repeat'] = lambda it, o, a, k, n: np_repeat(it, [o] + list(a), k, n)


# ------------------------------------------------------------ creation
def concrete(it, rows, n, dt='f8'):
    return M.as_array(it, rows, n, dt)


@npf('eye', 'identity')
def np_eye(it, a, k, n):
    m = _ci(a[0] if a else k.get('N', k.get('n')))
    if m is None or m > 16 or len(a) > 1 or set(k) - {'dtype', 'N', 'n'}:
        return it.top('numpy.eye', n)
    return concrete(it, [[1 if i == j else 0 for j in range(m)] for i in range(m)], n, M.dtype_of(k.get('dtype')) or 'f8')


@npf('diag')
def np_diag(it, a, k, n):
    x = seq(it, a[0], n)
    if not isinstance(x, Arr) or x.dims or len(a) > 1 or k:
        return it.top('numpy.diag', n)
    v = it.arr_get(x)
    if len(x.cshape) == 1:
        m = x.cshape[0]
        return concrete(it, [[v[i] if i == j else 0 for j in range(m)] for i in range(m)], n, x.dtype)
    m = min(x.cshape)
    return concrete(it, [v[i*x.cshape[1] + i] for i in range(m)], n, x.dtype)


@npf('trace')
def np_trace(it, a, k, n):
    x = seq(it, a[0], n)
    if not isinstance(x, Arr) or len(x.cshape) != 2 or len(a) > 1 or k:
        return it.top('numpy.trace', n)
    acc = None
    for i in range(min(x.cshape)):
        t = it.get_item(x, (i, i), n)
        acc = t if acc is None else it.binop('Add', acc, t, n)
    return acc


@npf('linspace')
def np_linspace(it, a, k, n):
    lo, hi, num, end = M.bindkw(a, k, ['start', 'stop', 'num', 'endpoint'], [50, True])
    m = _ci(num)
    lo, hi = to_expr(lo), to_expr(hi)
    if m is None or not 0 < m <= 64 or lo is None or hi is None or not isinstance(end, bool):
        return Top('numpy function')
    d = max(m - 1 if end else m, 1)
    return concrete(it, [lo + (hi - lo)*Fraction(i, d) for i in range(m)], n)


@npf('fromiter')
def np_fromiter(it, a, k, n):
    s = it.iterate(a[0], n)
    if s is None:
        return it.top('numpy.fromiter', n)
    return M.as_array(it, list(s), n, M.dtype_of(k.get('dtype', a[1] if len(a) > 1 else None)))


@npf('atleast_1d')
def np_atleast(it, a, k, n):
    if len(a) != 1:
        return Top('numpy function')
    x = seq(it, a[0], n)
    if isinstance(x, Arr):
        return x if x.shape else M.as_array(it, [it.arr_get(x)[0]], n, x.dtype)
    return M.as_array(it, [x], n) if to_expr(x) is not None else Top('numpy function')


@npf('outer', 'multiply.outer')
def np_outer(it, a, k, n):
    x, y = seq(it, a[0], n), seq(it, a[1], n)
    if not isinstance(x, Arr) or not isinstance(y, Arr) or x.dims or len(x.cshape) != 1 or y.dims or k:
        return it.top('numpy.outer', n)
    return M.as_array(it, [it.binop('Mult', it.get_item(x, i, n), y, n) for i in range(x.cshape[0])], n)


@npf('cumsum', 'add.accumulate')
def np_cumsum(it, a, k, n):
    x = seq(it, a[0], n)
    axis = k.get('axis', a[1] if len(a) > 1 else 0)
    if not isinstance(x, Arr) or len(x.cshape) != 1 or _comp_axis(x, axis) != 0 or set(k) - {'axis'} or x.dims and 'axis' not in k and len(a) < 2:
        return it.top('numpy.cumsum', n)
    out, acc = [], None
    for i in range(x.cshape[0]):
        t = it.get_item(x, i, n)
        acc = t if acc is None else it.binop('Add', acc, t, n)
        out.append(acc)
    return M.as_array(it, out, n)


M.ARRM['cumsum'] = lambda it, o, a, k, n: np_cumsum(it, [o] + list(a), k, n)


@npf('diff')
def np_diff(it, a, k, n):
    x = seq(it, a[0], n)
    axis = k.get('axis', -1)
    if not isinstance(x, Arr) or len(x.cshape) != 1 or _comp_axis(x, axis) != 0 or set(k) - {'axis'} or len(a) > 1:
        return it.top('numpy.diff', n)
    return M.as_array(it, [it.binop('Sub', it.get_item(x, i+1, n), it.get_item(x, i, n), n) for i in range(x.cshape[0] - 1)], n)


@npf('unique')
def np_unique(it, a, k, n):
    x = seq(it, a[0], n)
    if isinstance(x, Arr) and not x.dims and not k and len(a) == 1:
        v = [simp(q) if isinstance(q, Expr) else q for q in it.arr_get(x)]
        if all(isinstance(q, (int, Fraction)) for q in v):
            return M.as_array(it, sorted(set(v)), n, x.dtype)
    return Top('numpy function')


# ---------------------------------------------------------- elementwise
@npf('clip')
def np_clip(it, a, k, n):
    x, lo, hi, out = M.bindkw(a, k, ['a', 'a_min', 'a_max', 'out'], [k.get('min'), k.get('max'), None]) \
        if not set(k) & {'min', 'max'} else (a[0], k.get('min'), k.get('max'), k.get('out'))
    r = seq(it, x, n)
    if lo is not None:
        r = it.elementwise(lambda p, q: M.extremum('max', [p, q]), [r, seq(it, lo, n)], n)
    if hi is not None:
        r = it.elementwise(lambda p, q: M.extremum('min', [p, q]), [r, seq(it, hi, n)], n)
    return M.ufunc_out(it, r, out, {}, n)


M.ARRM['clip'] = lambda it, o, a, k, n: np_clip(it, [o] + list(a), k, n)


@npf('hypot')
def np_hypot(it, a, k, n):
    x, y = seq(it, a[0], n), seq(it, a[1], n)
    r = it.binop('Pow', it.binop('Add', it.binop('Mult', x, x, n), it.binop('Mult', y, y, n), n), Fraction(1, 2), n)
    return M.ufunc_out(it, r, k.get('out', a[2] if len(a) > 2 else None), k, n)


@npf('select')
def np_select(it, a, k, n):
    conds, vals, d = M.bindkw(a, k, ['condlist', 'choicelist', 'default'], [0])
    conds, vals = it.iterate(conds, n), it.iterate(vals, n)
    if conds is None or vals is None or len(conds) != len(vals):
        return it.top('numpy.select', n)
    r = d
    for c, v in reversed(list(zip(conds, vals))):
        r = M.np_where(it, [c, v, r], {}, n)
    return r


@npf('choose')
def np_choose(it, a, k, n):
    i = _ci(a[0])
    s = it.iterate(a[1], n) if len(a) > 1 else None
    if i is None or s is None or k:
        return it.top('numpy.choose', n)
    if not 0 <= i < len(s):
        raise AbsRaise('ValueError', 'invalid entry in choice array', n)
    return s[i]


@npf('polyval')
def np_polyval(it, a, k, n):
    p, x = M.bindkw(a, k, ['p', 'x'])
    p = it.iterate(seq(it, p, n), n)
    x = seq(it, x, n)
    if p is None:
        return it.top('numpy.polyval', n)
    acc = 0
    for c in p:
        acc = it.binop('Add', it.binop('Mult', acc, x, n), c, n)
    return acc


@npf('average')
def np_average(it, a, k, n):
    x, axis, w = M.bindkw(a, k, ['a', 'axis', 'weights'], [None, None])
    x = seq(it, x, n)
    if w is None:
        return M.NPF['mean'](it, [x, axis], {}, n)
    w = seq(it, w, n)
    if not isinstance(x, Arr) or not isinstance(w, Arr) or w.dims or len(w.cshape) != 1 or (_comp_axis(x, axis) != 0 and x.dims) or not x.cshape:
        return it.top('numpy.average', n)
    acc = tot = None
    for i in range(w.cshape[0]):
        q = it.get_item(w, i, n)
        t = it.binop('Mult', q, it.get_item(x, i, n), n)
        acc = t if acc is None else it.binop('Add', acc, t, n)
        tot = q if tot is None else it.binop('Add', tot, q, n)
    return it.binop('Div', acc, tot, n)


@npf('isrealobj')
def np_isrealobj(it, a, k, n):
    x = seq(it, a[0], n)
    if isinstance(x, Arr):
        return not x.dtype.startswith('c')
    e = to_expr(x)
    return it.top('isrealobj', n) if e is None else X.I_ATOM not in e.atoms()


@npf('ndindex')
def np_ndindex(it, a, k, n):
    sh = a[0] if len(a) == 1 and isinstance(a[0], (list, tuple)) else a
    sh = [_ci(q) for q in sh]
    if any(q is None for q in sh):
        return it.top('numpy.ndindex', n)
    return AList(list(itertools.product(*[range(q) for q in sh])))


def reduce_sub(it, a, k, n):
    x, axis = M.bindkw(a, {q: v for q, v in k.items() if q in ('array', 'axis')}, ['array', 'axis'], [0])
    x = seq(it, x, n)
    c = _comp_axis(x, axis)
    if c is None or set(k) - {'array', 'axis', 'out'}:
        return it.top('ufunc method', n)
    acc = None
    for i in range(x.cshape[c]):
        t = it.get_item(x, (slice(None),)*c + (i,), n)
        acc = t if acc is None else it.binop('Sub', acc, t, n)
    return M.ufunc_out(it, acc, k.get('out'), {}, n)


M.NPF['subtract.reduce'] = reduce_sub


# -------------------------------------------------------- stores
def ufunc_at(op):
    def f(it, a, k, n):
        o, i = a[0], a[1]
        v = a[2] if len(a) > 2 else None
        simple = _ci(i) is not None or isinstance(i, (slice, type(Ellipsis))) or \
            isinstance(i, tuple) and all(_ci(q) is not None or isinstance(q, (slice, type(Ellipsis))) for q in i)
        if not isinstance(o, Arr) or v is None or not simple:
            it.havoc(o)
            return it.top('ufunc method', n)
        it.set_item(o, i, it.binop(op, it.get_item(o, i, n), seq(it, v, n), n), n)
        return None
    return f


for _q, _o in (('add', 'Add'), ('subtract', 'Sub'), ('multiply', 'Mult')):
    M.NPF[_q + '.at'] = ufunc_at(_o)


@npf('putmask', 'place')
def np_putmask(it, a, k, n):
    o, m, v = M.bindkw(a, k, ['a' if 'a' in k else 'arr', 'mask', 'vals' if 'vals' in k else 'values'])
    v = seq(it, v, n)
    if isinstance(v, Arr) and not v.dims and v.cshape == (1,):
        v = it.arr_get(v)[0]
    if not isinstance(o, Arr) or not isinstance(m, Arr) or to_expr(v) is None or len(m.shape) != len(o.shape):
        it.havoc(o)
        return it.top('masked store', n)
    if m.dtype != 'b':
        m = it.elementwise(M._indicator, [m], n, dtype='b')
    it.set_item(o, m, v, n)


@npf('split', 'array_split')
def np_split(it, a, k, n):
    x, m, axis = M.bindkw(a, k, ['ary', 'indices_or_sections', 'axis'], [0])
    x = seq(it, x, n)
    c = _comp_axis(x, axis)
    if c is None or _ci(m) is None or x.cshape[c] % _ci(m):
        return it.top('numpy.split', n)
    w = x.cshape[c]//_ci(m)
    return AList([it.get_item(x, (slice(None),)*c + (slice(i*w, (i+1)*w),), n) for i in range(_ci(m))])


@npf('apply_along_axis')
def np_apply(it, a, k, n):
    f, axis, x = a[0], a[1], seq(it, a[2], n)
    c = _comp_axis(x, axis)
    q = getattr(f, 'q', '').split('.')[-1]
    if c is None or len(a) > 3 or k or q not in ('sum', 'prod', 'max', 'min', 'mean', 'amax', 'amin'):
        return it.top('numpy.apply_along_axis', n)
    return M.NPF[q](it, [x], dict(axis=c), n)


@npf('broadcast_arrays')
def np_barr(it, a, k, n):
    xs = [seq(it, x, n) for x in a]
    if not all(isinstance(x, Arr) for x in xs):
        return it.top('broadcast_arrays', n)
    z = None
    for x in xs:
        t = it.elementwise(lambda p: X.ZERO, [x], n)
        z = t if z is None else it.binop('Add', z, t, n)
    return tuple(it.elementwise(lambda p, q: p, [x, z], n, dtype=x.dtype) for x in xs)


def ext_shallow(it, a, k, n):
    v = a[0]
    if isinstance(v, Arr):
        return it.copy_arr(v)
    if isinstance(v, list):
        return AList(list(v))
    if isinstance(v, dict):
        return it.call(it.get_attr(v, 'copy', n), [], {}, n)
    if isinstance(v, (tuple, str, int, float)) or to_expr(v) is not None:
        return v
    return it.top('copy.copy', n)
