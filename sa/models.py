"""Models of everything outside the repository: builtins, numpy, shenfun, mpi4py,
argparse and friends.  Only documented library semantics are encoded here."""
import ast
import itertools
from fractions import Fraction
from . import expr as X
from .expr import lift, Expr
from .values import *  # noqa
from . import mapping

# ------------------------------------------------------------- dimensions
LETTER = {'spec': 's', 'phys': 'p', 'pad': 'P'}


def dim(kind, i):
    return X.sym('%s%d' % (LETTER[kind], i), (), ('dim', 'extent', 'pos', 'real', 'local'))


def gdim(i):
    return X.sym('N%d' % i, (), ('dim', 'pos', 'real'))


def ldom(i):
    return X.sym('L%d' % i, (), ('pos', 'real'))


PI = X.sym('pi', (), ('pos', 'real'))


def at_zero_hook(interp):
    """Fourier wavenumber number 0 lives at global index 0 (on rank 0)."""
    def hook(a, region):
        if 'wavenum' in a.flags:
            (ax,) = tuple(a.dep)
            for x, ix in region:
                if x == ax and ix == 0 and interp.rank == 0:
                    return X.ZERO
        return None
    return hook


# ------------------------------------------------------------ model objects
class MObj(Obj):
    CLS = 'Model'

    def __init__(self, **attrs):
        Obj.__init__(self, self.CLS, **attrs)


def bindkw(args, kwargs, names, defaults=()):
    out = {}
    for n, v in zip(names, args):
        out[n] = v
    nd = len(names) - len(defaults)
    for i, n in enumerate(names):
        if n not in out:
            if n in kwargs:
                out[n] = kwargs[n]
            elif i >= nd:
                out[n] = defaults[i-nd]
            else:
                raise AbsRaise('TypeError', 'missing argument %s' % n)
    return [out[n] for n in names]


def scal(v):
    """Value usable inside a signature."""
    if isinstance(v, Expr):
        v = simp(v)
    if isinstance(v, Expr):
        return str(v)
    if isinstance(v, (tuple, list)):
        return tuple(scal(x) for x in v)
    if isinstance(v, Ext):
        return v.q
    return v


class Basis(MObj):
    CLS = 'Basis'

    def __init__(self, N, family, bc=None, quad=None, domain=None, dtype=None, kind=None):
        MObj.__init__(self)
        fam = str(family)[:1].upper()
        self.N, self.family = N, fam
        self.dtype = dtype
        self.domain = domain
        if fam == 'F':
            self.kind, self.bcv = 'F', None
            self.quad = None
        else:
            n = 0 if bc is None else len(bc)
            self.kind = kind or {0: 'T', 2: 'D', 4: 'B'}.get(n, 'bc%d' % n)
            self.bcv = None if bc is None else scal(bc)
            self.quad = quad if isinstance(quad, str) else ('?' if quad is not None else 'GC')
        self.attrs.update({'N': N, 'quad': self.quad, 'domain': domain})

    def cplx(self):
        d = dtype_of(self.dtype)
        return 'c' if d in ('c8', 'c16') else 'r'

    def sig(self):
        """Identity of the transform of this basis."""
        if self.family == 'F':
            return ('F', scal(self.N), self.cplx())
        return (self.kind, scal(self.N), self.quad, self.bcv if any(
            b not in (0, None) for b in (self.bcv or ())) else None)

    def msig(self):
        """Identity of the basis functions in inner-product matrices."""
        if self.family == 'F':
            return ('F', scal(self.N))
        return (self.kind, scal(self.N), self.quad)

    def m_family(self, it, a, k, n):
        return 'fourier' if self.family == 'F' else 'chebyshev'

    def m_points_and_weights(self, it, a, k, n):
        return (it.top('quadrature points', n), Top('quadrature weights'))

    def m_shape(self, it, a, k, n):
        return self.N

    def m_get_dealiased(self, it, a, k, n):
        return self


class TPS(MObj):
    CLS = 'TPS'

    def __init__(self, bases, dtype=None, variant='', kw=None):
        MObj.__init__(self)
        self.bases = list(bases)
        self.variant = variant
        self.dtype = dtype
        self.kw = kw or {}
        self.attrs['bases'] = AList(self.bases)
        self.attrs['comm'] = COMM
        self.attrs['tensor_rank'] = 0
        self.attrs['rank'] = 0

    def __eq__(self, o):
        return self is o

    __hash__ = object.__hash__

    @property
    def flat(self):
        return [self]

    def ncomp(self):
        return 1

    def sig(self):
        return tuple(b.sig() for b in self.bases)

    def msig(self):
        return tuple(b.msig() for b in self.bases)

    def nd(self):
        return len(self.bases)

    def cheb_axis(self):
        for i, b in enumerate(self.bases):
            if b.family != 'F':
                return i
        return None

    def dims(self, spectral):
        k = 'spec' if spectral else ('pad' if self.variant.startswith('pad') else 'phys')
        return tuple(dim(k, i) for i in range(self.nd()))

    def real_dtype(self):
        dts = [self.dtype] + [b.dtype for b in self.bases]
        for d in dts:
            if dtype_of(d) in ('f4', 'c8'):
                return 'f4'
        return 'f8'

    def arr_dtype(self, spectral):
        r = self.real_dtype()
        if spectral:
            return 'c8' if r == 'f4' else 'c16'
        if self.bases and all(b.family == 'F' and b.cplx() == 'c' for b in self.bases):
            return 'c8' if r == 'f4' else 'c16'
        return r

    # methods
    def m_shape(self, it, a, k, n):
        sp, = bindkw(a, k, ['forward_output'], [True])
        return self.dims(it.truth(sp) is True)

    m_local_shape = m_shape

    def m_global_shape(self, it, a, k, n):
        sp, = bindkw(a, k, ['forward_output'], [False])
        if self.variant.startswith('pad') and not it.truth(sp):
            return tuple(X.sym('NP%d' % i, (), ('dim', 'pos', 'real')) for i in range(self.nd()))
        if it.truth(sp) is True and all(b.family == 'F' for b in self.bases):
            return tuple(X.sym('NS%d' % i, (), ('dim', 'pos', 'real')) for i in range(self.nd()))
        return tuple(gdim(i) for i in range(self.nd()))

    def m_dim(self, it, a, k, n):
        return X.sym('dim(space)', (), ('pos', 'real'))

    def p_dimensions(self, it, n):
        return self.nd()

    def m_size(self, it, a, k, n):
        e = X.ONE
        for d in self.dims(True):
            e = e*d
        return e

    def m_local_slice(self, it, a, k, n):
        sp, = bindkw(a, k, ['forward_output'], [True])
        t = 's' if it.truth(sp) is True else 'p'
        return tuple(slice(X.sym('lo_%s%d' % (t, i), (), ('real', 'local', 'nonneg')),
                           X.sym('hi_%s%d' % (t, i), (), ('real', 'local', 'pos'))) for i in range(self.nd()))

    def m_local_mesh(self, it, a, k, n):
        bc, = bindkw(a, k, ['broadcast'], [False])
        out = AList()
        for i in range(self.nd()):
            e = X.sym('x%d' % i, (i,), ('real',))
            d = [1]*self.nd()
            d[i] = self.dims(False)[i]
            if it.truth(bc) is True:
                d = list(self.dims(False))
            out.append(it.new_arr((), tuple(d), 'f8', init=e))
        return out

    m_mesh = m_local_mesh

    def m_local_wavenumbers(self, it, a, k, n):
        bc, sc, eh = bindkw(a, k, ['broadcast', 'scaled', 'eliminate_highest_freq'], [False, False, False])
        out = AList()
        for i, b in enumerate(self.bases):
            if b.family == 'F':
                name = 'K%d' % i
                if it.truth(eh) is True:
                    name = 'Kx%d' % i
                ok = False
                if it.truth(sc) is not True:
                    name = 'un' + name
                else:
                    try:
                        lo, hi = it.iterate(b.domain)
                        ok = lift(to_expr(hi) - to_expr(lo)) == ldom(i)
                    except Exception:
                        ok = False
                    if not ok:
                        name += '[domain %s]' % (scal(b.domain),)
                e = X.sym(name, (i,), ('real', 'wavenum'))
                it.config.setdefault('wave_axes', set()).add(i)
            else:
                e = X.sym('kc%d' % i, (i,), ('real',))
            d = [1]*self.nd()
            d[i] = self.dims(True)[i]
            if it.truth(bc) is True:
                d = list(self.dims(True))
            out.append(it.new_arr((), tuple(d), 'f8', init=e))
        return out

    m_wavenumbers = m_local_wavenumbers

    def m_get_mask_nyquist(self, it, a, k, n):
        return it.new_arr((), self.dims(True), 'i8', init=self.mask_expr())

    def mask_expr(self):
        dep = tuple(i for i, b in enumerate(self.bases) if b.family == 'F')
        return X.sym('mask', dep, ('real', 'idem'))

    def m_get_dealiased(self, it, a, k, n):
        pf, dd = bindkw(a, k, ['padding_factor', 'dealias_direct'], [1, False])
        if isinstance(pf, (tuple, list)):
            pf = next((p for p in pf if simp(to_expr(p)) != 1), 1)
        pf = simp(to_expr(pf)) if to_expr(pf) is not None else '?'
        d = it.truth(dd)
        if pf == 1 and d is False:
            return self
        v = ''
        if pf != 1:
            v = 'pad%s' % pf
        if d is not False:
            v += 'direct'
        key = (v,)
        if not hasattr(self, '_deal'):
            self._deal = {}
        if key not in self._deal:
            self._deal[key] = TPS(self.bases, self.dtype, v, self.kw)
        return self._deal[key]

    def m_backward(self, it, a, k, n):
        return transform(it, self, 'bwd', a, k, n)

    def m_forward(self, it, a, k, n):
        return transform(it, self, 'fwd', a, k, n)

    def m_scalar_product(self, it, a, k, n):
        return transform(it, self, 'scp', a, k, n)

    def m_local_shape(self, it, a, k, n):
        return self.m_shape(it, a, k, n)

    def m_num_components(self, it, a, k, n):
        return 1


class CSpace(MObj):
    CLS = 'CSpace'

    def __init__(self, spaces, vector=False):
        MObj.__init__(self)
        self.spaces = list(spaces)
        self.vector = vector
        self.attrs['spaces'] = AList(self.spaces)
        self.attrs['comm'] = COMM
        self.attrs['bases'] = AList(self.flat[0].bases)

    @property
    def flat(self):
        return [t for s in self.spaces for t in s.flat]

    def nested(self):
        return any(isinstance(s, CSpace) for s in self.spaces)

    def ncomp(self):
        return len(self.flat)

    def nd(self):
        return self.flat[0].nd()

    def dims(self, spectral):
        return self.flat[0].dims(spectral)

    def arr_dtype(self, spectral):
        return self.flat[0].arr_dtype(spectral)

    def m_shape(self, it, a, k, n):
        return (self.ncomp(),) + self.flat[0].m_shape(it, a, k, n)

    def m_global_shape(self, it, a, k, n):
        return (self.ncomp(),) + self.flat[0].m_global_shape(it, a, k, n)

    def m_backward(self, it, a, k, n):
        return transform(it, self, 'bwd', a, k, n)

    def m_forward(self, it, a, k, n):
        return transform(it, self, 'fwd', a, k, n)

    def m_scalar_product(self, it, a, k, n):
        return transform(it, self, 'scp', a, k, n)

    def m_get_dealiased(self, it, a, k, n):
        return CSpace([s.m_get_dealiased(it, a, k, n) for s in self.spaces], self.vector)

    def m_num_components(self, it, a, k, n):
        return self.ncomp()

    def m_local_mesh(self, it, a, k, n):
        return self.flat[0].m_local_mesh(it, a, k, n)

    def m_local_wavenumbers(self, it, a, k, n):
        return self.flat[0].m_local_wavenumbers(it, a, k, n)

    def m_get_mask_nyquist(self, it, a, k, n):
        return self.flat[0].m_get_mask_nyquist(it, a, k, n)

    def m_local_slice(self, it, a, k, n):
        return (slice(None),) + self.flat[0].m_local_slice(it, a, k, n)

    def p_dimensions(self, it, n):
        return self.nd()


def transform(it, space, name, a, k, n):
    """space.forward / backward on an array, component by component."""
    inp, out = bindkw(a, {q: v for q, v in k.items() if q in ('input_array', 'output_array')},
                      ['input_array', 'output_array'], [None, None])
    if inp is None:
        return it.top('transform of plan buffers', n)
    if isinstance(inp, Top):
        if isinstance(out, Arr):
            it.arr_set(out, Top('transform of unknown'), n)
            return out
        return Top('transform of unknown')
    if not isinstance(inp, Arr):
        if to_expr(inp) is not None or isinstance(inp, (list, tuple)):
            raise AbsRaise('TypeError', 'transform of a non-array', n)
        return it.top('transform of %s' % type(inp).__name__, n)
    spectral_in = name == 'bwd'
    flat = space.flat
    want = ((len(flat),) if isinstance(space, CSpace) else ()) + tuple(space.dims(spectral_in))
    check_shape(it, inp, want, 'input of %s' % name, n)
    wout = ((len(flat),) if isinstance(space, CSpace) else ()) + tuple(space.dims(not spectral_in))
    if out is not None and isinstance(out, Arr):
        check_shape(it, out, wout, 'output of %s' % name, n)
    else:
        out = it.new_arr(wout[:1] if isinstance(space, CSpace) else (), space.dims(not spectral_in),
                         space.arr_dtype(not spectral_in), space=space,
                         kind='Array' if spectral_in else 'Function')
    prec = space.flat[0].real_dtype()
    for o, w in ((inp, 'input'), (out, 'output')):
        if o.dtype in ('f4', 'c8') and prec == 'f8' or o.dtype in ('f8', 'c16') and prec == 'f4':
            it.suspects.append(('precision', it.loc(n), '%s of %s transform has dtype %s in a %s space' % (
                w, name, o.dtype, prec)))
    if not spectral_in and inp.dtype in ('c8', 'c16') and flat[0].arr_dtype(False) in ('f4', 'f8'):
        it.suspects.append(('complex-forward', it.loc(n), 'complex array passed to a real forward transform'))
    vals = it.arr_get(inp)
    cells = []
    for v, T in zip(vals, flat):
        cells.append(v if isinstance(v, Top) else apply_tr(it, T, name, v))
    res = it.new_arr(out.cshape, out.dims, out.dtype)
    res.store.cells = cells
    it.arr_set(out, res, n)
    it.event('transform', (name, space, vals, T.variant), n)
    return out


def apply_tr(it, T, name, v):
    # c2r transforms act on Hermitian-symmetric data: their complex-linear
    # extension is used, so i*bwd(K u) is the real field bwd(i K u)
    return X.linop((name, T.sig(), T.variant), v, frozenset(range(T.nd())))


def check_shape(it, arr, want, what, n):
    from .interp import same_dim
    have = arr.shape
    if len(have) != len(want) or not all(same_dim(p, q) for p, q in zip(have, want)):
        raise AbsRaise('ValueError', 'shape mismatch for %s: %s instead of %s' % (what, tuple(have), tuple(want)), n)


# ----------------------------------------------------------------- dtypes
DT = {'float64': 'f8', 'float32': 'f4', 'complex128': 'c16', 'complex64': 'c8', 'float_': 'f8', 'float': 'f8',
      'complex': 'c16', 'complex_': 'c16', 'int': 'i8', 'int64': 'i8', 'int32': 'i8', 'bool': 'b', 'bool_': 'b',
      'd': 'f8', 'D': 'c16', 'f': 'f4', 'F': 'c8', 'f8': 'f8', 'f4': 'f4', 'c16': 'c16', 'c8': 'c8', 'i8': 'i8',
      'double': 'f8', 'single': 'f4', 'uint8': 'i8', 'int_': 'i8', 'intp': 'i8', 'i': 'i8', 'l': 'i8'}
DTX = {'f8': 'float64', 'f4': 'float32', 'c16': 'complex128', 'c8': 'complex64', 'i8': 'int64', 'b': 'bool_'}


def dtype_of(v):
    if v is None:
        return None
    if isinstance(v, str):
        return DT.get(v)
    if isinstance(v, Ext):
        return DT.get(v.q.split('.')[-1])
    if isinstance(v, Builtin):
        return DT.get(v.name)
    return None


def ext_dtype(d):
    return Ext('numpy.' + DTX.get(d, 'float64'))


# ------------------------------------------------------------------ arrays
def split_shape(it, shape):
    """(component shape, dims) of an array created with this shape."""
    shape = [simp(s) if isinstance(s, Expr) else s for s in shape]
    nd = it.config.get('ndim', 3)
    comps = []
    i = 0
    anysym = any(not isinstance(s, int) for s in shape)
    if not anysym and all(s == 1 for s in shape):
        return (), tuple(shape)
    while i < len(shape) and isinstance(shape[i], int) and (shape[i] != 1 or len(shape) - i > nd or not anysym):
        comps.append(shape[i])
        i += 1
    return tuple(comps), tuple(shape[i:])


def shape_list(it, s, node):
    if isinstance(s, (int, Expr, IndexVar)):
        return [s]
    if isinstance(s, Arr):
        return [simp(e) for e in it.arr_get(s)]
    if isinstance(s, (tuple, list)):
        out = []
        for x in s:
            if not isinstance(x, (int, Expr)):
                return None
            out.append(x)
        return out
    return None


def make(it, shape, dtype, node, init, kind=None):
    sh = shape_list(it, shape, node)
    if sh is None:
        return it.top('array of unknown shape', node)
    c, d = split_shape(it, sh)
    return it.new_arr(c, d, dtype, init=init)


def as_array(it, seq, node, dtype=None):
    if isinstance(seq, Arr):
        return seq
    if isinstance(seq, (list, tuple)):
        items = [as_array(it, x, node) if isinstance(x, (list, tuple)) else x for x in seq]
        arrs = [x for x in items if isinstance(x, Arr)]
        if arrs:
            sh = max((a.shape for a in arrs), key=len)
            ca, da = next((a.cshape, a.dims) for a in arrs if a.shape == sh)
            cells = []
            dt = None
            for x in items:
                if isinstance(x, Arr):
                    cells.extend(it.broadcast_to(x, ca, da, node))
                    dt = promote(dt, x.dtype)
                else:
                    e = to_expr(x)
                    m = 1
                    for c in ca:
                        m *= c
                    cells.extend([e if e is not None else Top('item')]*m)
            r = it.new_arr((len(items),) + ca, da, dtype or dt)
            r.store.cells = cells
            return r
        cells = []
        dt = 'i8'
        for x in items:
            e = to_expr(x)
            cells.append(e if e is not None else Top('array item'))
            if e is not None:
                if X.I_ATOM in e.atoms():
                    dt = 'c16'
                elif not isinstance(x, (int, bool)) and dt != 'c16':
                    dt = 'f8'
        r = it.new_arr((len(items),), (), dtype or dt)
        r.store.cells = [it.narrow(e) for e in cells] if r.dtype in ('f4', 'c8') else cells
        return r
    e = to_expr(seq)
    r = it.new_arr((), (), dtype or 'f8')
    r.store.cells = [e if e is not None else Top('scalar')]
    return r


def arr_sum(it, v, axis, node, name='sum', keepdims=False, dtype=None):
    from .interp import reduce_axes
    if isinstance(v, (list, tuple)):
        v = as_array(it, v, node)
    if not isinstance(v, Arr):
        return v if to_expr(v) is not None else it.top('sum of unknown', node)
    nsh = len(v.shape)
    if axis is None:
        axes = list(range(nsh))
    else:
        axes = [axis] if not isinstance(axis, (tuple, list)) else list(axis)
        axes = [simp(x) if isinstance(x, Expr) else x for x in axes]
        if not all(isinstance(x, int) for x in axes):
            return it.top('symbolic axis', node)
        for x in axes:
            if not -nsh <= x < nsh:
                raise AbsRaise('AxisError', 'axis %d is out of bounds for array of dimension %d' % (x, nsh), node)
        axes = [x % nsh for x in axes]
    nc = len(v.cshape)
    vals = it.arr_get(v)
    caxes = [x for x in axes if x < nc]
    saxes = [x - nc for x in axes if x >= nc]
    # spatial part
    if saxes:
        sa = []
        for x in saxes:
            if v.axes[x] is not None and not _one(v.dims[x]):
                sa.append(v.axes[x])
        if sa:
            vals = [q if isinstance(q, Top) else reduce_axes(q, sa, name) for q in vals]
    outc = tuple(c for i, c in enumerate(v.cshape) if i not in caxes)
    cells = {}
    for k, q in enumerate(vals):
        rem, co = k, []
        for c in reversed(v.cshape):
            co.append(rem % c)
            rem //= c
        co.reverse()
        key = tuple(x for i, x in enumerate(co) if i not in caxes)
        cells.setdefault(key, []).append(q)
    out = []
    for key in sorted(cells):
        qs = cells[key]
        t = next((q for q in qs if isinstance(q, Top)), None)
        if t is not None:
            out.append(t)
        elif name == 'sum':
            acc = X.ZERO
            for q in qs:
                acc = acc + q
            out.append(acc)
        elif name == 'prod':
            acc = X.ONE
            for q in qs:
                acc = acc * q
            out.append(acc)
        else:
            out.append(extremum(name, qs))
    dims = tuple(d for i, d in enumerate(v.dims) if i not in saxes)
    ax = tuple(d for i, d in enumerate(v.axes) if i not in saxes)
    if not outc and not dims:
        return simp(out[0]) if isinstance(out[0], Expr) else out[0]
    r = it.new_arr(outc, dims, v.dtype)
    r.store.cells = out
    # store axes follow the visible dims of a fresh array: renumbering is only
    # needed when a leading spatial axis has been summed away
    if ax != tuple(range(len(dims))):
        r.axes = ax
        r.store.dims = v.store.dims
    return r


def extremum(name, qs):
    es, seen = [], set()
    for q in qs:
        if q not in seen:
            seen.add(q)
            es.append(q)
    cs = [X.const_value(e) for e in es]
    if all(c is not None for c in cs):
        return lift(max(cs) if name == 'max' else min(cs))
    if len(es) == 1:
        return es[0]
    flags = {'real'}
    if any('local' in a.flags for e in es for a in X.all_atoms(e)):
        flags.add('local')
    return X.func(name, *sorted(es, key=lambda e: e.key()), pointwise=True, flags=tuple(flags))


def _one(d):
    if isinstance(d, Expr):
        return X.const_value(d) == 1
    return d == 1


def pw(name, flags=()):
    def f(it, a, k, n):
        out = k.get('out')
        x = a[0]
        if isinstance(x, (list, tuple)):
            x = as_array(it, x, n)

        def g(e):
            if name == 'abs' and X.const_value(e) is not None:
                return lift(abs(X.const_value(e)))
            if name == 'abs' and X.sign(e) in ('+', '0+'):
                return e
            if name == 'conj':
                return X.conj(e)
            if name == 'real':
                return X.real(e)
            if name == 'imag':
                return X.imag(e)
            if name == 'square':
                return e*e
            if name == 'negative':
                return -e
            if name == 'positive':
                return e
            if name == 'reciprocal':
                return X.inverse(e)
            if name == 'sign' and X.const_value(e) is not None:
                v = X.const_value(e)
                return lift((v > 0) - (v < 0))
            return X.func(name, e, pointwise=True, flags=flags)
        if isinstance(x, Top):
            return x
        if not isinstance(x, Arr):
            e = to_expr(x)
            if e is None:
                return it.top('%s of unknown' % name, n)
            return simp(g(e))
        dt = x.dtype
        if name in ('abs', 'real', 'imag'):
            dt = {'c8': 'f4', 'c16': 'f8'}.get(dt, dt)
        r = it.elementwise(g, [x], n, dtype=dt)
        return ufunc_out(it, r, out if out is not None or len(a) < 2 else a[1], k, n)
    return f


def binary(op):
    def f(it, a, k, n):
        out = k.get('out', a[2] if len(a) > 2 else None)
        x, y = a[0], a[1]
        x = as_array(it, x, n) if isinstance(x, (list, tuple)) else x
        y = as_array(it, y, n) if isinstance(y, (list, tuple)) else y
        r = it.binop(op, x, y, n)
        return ufunc_out(it, r, out, k, n)
    f.ufunc = op
    return f


def ufunc_out(it, r, out, k, n):
    """out= and where= arguments of a ufunc."""
    if isinstance(out, tuple):
        out = out[0]
    w = k.get('where', True)
    if w is not True:
        old = out
        if not isinstance(out, Arr):
            if not isinstance(r, Arr):
                return it.top('where of a scalar ufunc', n)
            old = stale_fill(it, it.copy_arr(r), 'uninit')
        r = it.elementwise(lambda c, u, v: c*u + (X.ONE - c)*v, [w, r, old], n,
                           dtype=old.dtype)
    if isinstance(out, Arr):
        if isinstance(r, Arr) and r.size() > out.size():
            raise AbsRaise('ValueError', 'non-broadcastable output operand', n)
        it.arr_set(out, r, n)
        return out
    return r


def comparison(op):
    def f(it, a, k, n):
        return it.compare(op, a[0], a[1], n)
    return f


# -------------------------------------------------------------------- numpy
NPF = {}


def npf(*names):
    def d(f):
        for nm in names:
            NPF[nm] = f
        return f
    return d


@npf('zeros')
def np_zeros(it, a, k, n):
    sh, dt = bindkw(a, k, ['shape', 'dtype'], [None])
    return make(it, sh, dtype_of(dt) or 'f8', n, X.ZERO)


@npf('ones')
def np_ones(it, a, k, n):
    sh, dt = bindkw(a, k, ['shape', 'dtype'], [None])
    return make(it, sh, dtype_of(dt) or 'f8', n, X.ONE)


@npf('empty')
def np_empty(it, a, k, n):
    sh, dt = bindkw(a, k, ['shape', 'dtype'], [None])
    return stale_fill(it, make(it, sh, dtype_of(dt) or 'f8', n, X.ZERO), 'uninit')


@npf('full')
def np_full(it, a, k, n):
    sh, v, dt = bindkw(a, k, ['shape', 'fill_value', 'dtype'], [None])
    e = to_expr(v)
    return make(it, sh, dtype_of(dt) or 'f8', n, e if e is not None else Top('fill'))


def stale_fill(it, arr, base):
    if isinstance(arr, Arr):
        nd = len(arr.store.dims)
        arr.store.cells = [X.sym(it.fresh('stale_%s_%d' % (base, c)), tuple(range(max(nd, 1))), ('stale',))
                           for c in range(len(arr.store.cells))]
    return arr


def like(init):
    def f(it, a, k, n):
        x = a[0]
        if isinstance(x, (list, tuple)):
            x = as_array(it, x, n)
        if not isinstance(x, Arr):
            return it.top('like of unknown', n)
        dt = dtype_of(k.get('dtype', a[1] if len(a) > 1 else None)) or x.dtype
        r = it.new_arr(x.cshape, x.dims, dt, space=x.space, kind=x.kind,
                       init=init if init is not None else X.ZERO)
        r.axes = x.axes if x.axes == tuple(range(len(x.dims))) else r.axes
        if init is None:
            stale_fill(it, r, 'uninit')
        return r
    return f


NPF['zeros_like'] = like(X.ZERO)
NPF['ones_like'] = like(X.ONE)
NPF['empty_like'] = like(None)


@npf('full_like')
def np_full_like(it, a, k, n):
    r = like(X.ZERO)(it, a[:1], {}, n)
    it.arr_set(r, a[1], n)
    return r


@npf('array', 'asarray', 'ascontiguousarray', 'asanyarray', 'asfortranarray')
def np_array(it, a, k, n):
    dt = dtype_of(k.get('dtype', a[1] if len(a) > 1 else None))
    v = a[0]
    if isinstance(v, Arr):
        return it.copy_arr(v, dt, keep=False)
    if isinstance(v, Top):
        return v
    if isinstance(v, range):
        v = list(v)
    if isinstance(v, (list, tuple)):
        return as_array(it, v, n, dt)
    return as_array(it, v, n, dt)


@npf('copy')
def np_copy(it, a, k, n):
    return it.copy_arr(a[0], keep=False) if isinstance(a[0], Arr) else a[0]


@npf('copyto')
def np_copyto(it, a, k, n):
    it.arr_set(a[0], a[1], n)


@npf('sum', 'nansum')
def np_sum(it, a, k, n):
    v, axis, dt, out = bindkw(a, {q: w for q, w in k.items() if q in ('a', 'axis', 'dtype', 'out')},
                              ['a', 'axis', 'dtype', 'out'], [None, None, None])
    r = arr_sum(it, v, axis, n)
    if isinstance(out, Arr):
        if isinstance(r, Arr):
            from .interp import same_dim
            if len(r.shape) != len(out.shape) or not all(same_dim(p, q) for p, q in zip(r.shape, out.shape)):
                raise AbsRaise('ValueError', 'output parameter has wrong shape', n)
        it.arr_set(out, r, n)
        return out
    return r


def np_red(name):
    def f(it, a, k, n):
        v, axis = bindkw(a, {q: w for q, w in k.items() if q in ('a', 'axis')}, ['a', 'axis'], [None])
        return arr_sum(it, v, axis, n, name)
    return f


NPF['prod'] = np_red('prod')
NPF['max'] = NPF['amax'] = np_red('max')
NPF['min'] = NPF['amin'] = np_red('min')


@npf('mean')
def np_mean(it, a, k, n):
    v, axis = bindkw(a, k, ['a', 'axis'], [None])
    return arr_sum(it, v, axis, n, 'mean')


@npf('where')
def np_where(it, a, k, n):
    if len(a) == 1:
        return it.top('np.where index form', n)
    c = a[0]
    if isinstance(c, AbsBool):
        return it.merge_val(c.e, a[1], a[2])
    if isinstance(c, bool):
        return a[1] if c else a[2]
    vs = [as_array(it, x, n) if isinstance(x, (list, tuple)) else x for x in a[:3]]
    dt = None
    for x in vs[1:]:
        if isinstance(x, Arr):
            dt = promote(dt, x.dtype)
    return it.elementwise(lambda q, x, y: q*x + (X.ONE - q)*y, vs, n, dtype=dt or 'f8')


@npf('cross')
def np_cross(it, a, k, n):
    x, y = a[0], a[1]
    ax = {q: k.get(q, k.get('axis', -1)) for q in ('axisa', 'axisb', 'axisc')}
    if isinstance(x, (list, tuple)):
        x = as_array(it, x, n)
    if isinstance(y, (list, tuple)):
        y = as_array(it, y, n)
    if isinstance(x, Arr) and isinstance(y, Arr) and x.cshape == y.cshape == (3,) and all(
            ax[q] == 0 or not x.dims for q in ax):
        g = lambda v, i: it.get_item(v, i, n)
        b = lambda o, p, q: it.binop(o, p, q, n)
        comps = [b('Sub', b('Mult', g(x, (i+1) % 3), g(y, (i+2) % 3)), b('Mult', g(x, (i+2) % 3), g(y, (i+1) % 3)))
                 for i in range(3)]
        return as_array(it, comps, n)
    return it.top('np.cross', n)


@npf('einsum')
def np_einsum(it, a, k, n):
    spec = a[0]
    ops = [seq_arg(it, o, n) for o in a[1:]]
    out = k.get('out')
    if not isinstance(spec, str) or '->' not in spec or not all(isinstance(o, Arr) for o in ops):
        return it.top('np.einsum', n)
    lhs, res = spec.replace(' ', '').split('->')
    ins = lhs.split(',')
    lab = {}
    sdims = {}
    for s, o in zip(ins, ops):
        if '...' in s:
            s2 = s.replace('...', '')
            if not s.endswith('...') or len(s2) != len(o.cshape):
                return it.top('np.einsum layout', n)
        else:
            if len(s) != len(o.shape):
                return it.top('np.einsum layout', n)
            s2 = s[:len(o.cshape)]
            for ch, d in zip(s[len(o.cshape):], o.dims):
                sdims[ch] = d
        for ch, c in zip(s2, o.cshape):
            lab[ch] = c
    rc = [ch for ch in res.replace('...', '') if ch in lab]
    rest = [ch for ch in res.replace('...', '') if ch not in lab]
    summed = [ch for ch in lab if ch not in rc]
    if any(ch not in rest for ch in sdims):
        return it.top('np.einsum reduction over space', n)
    import itertools
    dims = None
    cells = []
    dt = None
    bc, bd = it.broadcast_shapes([o.dims for o in ops], [0]*len(ops), n)
    for o in ops:
        dt = promote(dt, o.dtype)
    for idx in itertools.product(*[range(lab[c]) for c in rc]):
        env = dict(zip(rc, idx))
        acc = X.ZERO
        for sidx in itertools.product(*[range(lab[c]) for c in summed]):
            env.update(zip(summed, sidx))
            t = X.ONE
            for s, o in zip(ins, ops):
                s2 = s.replace('...', '')[:len(o.cshape)]
                v = it.get_item(o, tuple(env[c] for c in s2), n) if s2 else o
                e = it.arr_get(v)[0] if isinstance(v, Arr) else to_expr(v)
                if isinstance(e, Top):
                    return it.top('np.einsum operand', n)
                t = t*e
            acc = acc + t
        cells.append(acc)
    r = it.new_arr(tuple(lab[c] for c in rc), bd, dt)
    r.store.cells = cells
    if isinstance(out, Arr):
        it.arr_set(out, r, n)
        return out
    return r


@npf('broadcast_to')
def np_broadcast_to(it, a, k, n):
    v, sh = a[0], shape_list(it, a[1], n)
    if sh is None:
        return it.top('broadcast_to', n)
    c, d = split_shape(it, sh)
    r = it.new_arr(c, d, v.dtype if isinstance(v, Arr) else 'f8')
    it.arr_set(r, v, n)
    return r


@npf('concatenate', 'hstack', 'vstack')
def np_concat(it, a, k, n):
    ax = k.get('axis', a[1] if len(a) > 1 else 0)
    seq = it.iterate(a[0], n)
    if ax == 0 and seq is not None and all(isinstance(q, Arr) and q.cshape for q in seq) and not k.get('out'):
        parts = []
        for q in seq:
            parts.extend(it.iterate(q, n))
        return as_array(it, parts, n)
    return Top('concatenate')


@npf('stack')
def np_stack(it, a, k, n):
    ax = k.get('axis', a[1] if len(a) > 1 else 0)
    seq = it.iterate(a[0], n)
    if ax == 0 and seq is not None:
        return as_array(it, list(seq), n)
    return it.top('np.stack', n)


@npf('arange')
def np_arange(it, a, k, n):
    v = [simp(x) if isinstance(x, Expr) else x for x in a]
    if v and len(v) <= 3 and all(isinstance(x, int) and not isinstance(x, bool) for x in v) and len(range(*v)) <= 64:
        return as_array(it, list(range(*v)), n)
    return Top('numpy function')


@npf('linspace', 'take', 'meshgrid', 'random', 'ravel', 'reshape', 'squeeze', 'roll', 'sort', 'argsort',
     'argmax', 'argmin', 'diff', 'cumsum', 'interp', 'outer', 'inner',
     'loadtxt', 'savetxt', 'fromiter', 'histogram', 'atleast_1d', 'flip', 'transpose',
     'moveaxis', 'swapaxes', 'unique', 'load', 'save', 'fromfile', 'trapz', 'polyfit')
def np_unknown(it, a, k, n):
    return Top('numpy function')


def contract(it, x, y, c, n):
    """Sum over the last component axis of x and component axis c of y."""
    import itertools
    if x.dims or not x.cshape or c >= len(y.cshape) or x.cshape[-1] != y.cshape[c]:
        return Top('numpy product')
    xr, yr = x.cshape[:-1], y.cshape[:c] + y.cshape[c+1:]
    out = []
    for p in itertools.product(*[range(q) for q in xr]):
        for q in itertools.product(*[range(z) for z in yr]):
            acc = None
            for m in range(y.cshape[c]):
                t = it.binop('Mult', it.get_item(x, tuple(p) + (m,), n), it.get_item(y, tuple(q[:c]) + (m,) + tuple(q[c:]), n), n)
                acc = t if acc is None else it.binop('Add', acc, t, n)
            out.append(acc)
    if not xr and not yr:
        return out[0]
    shape = xr + yr
    dt = result_dt(it, x, y, n)
    r = it.new_arr(shape, y.dims, dt, space=y.space)
    for p, v in zip(itertools.product(*[range(q) for q in shape]), out):
        it.set_item(r, tuple(p), v, n)
    return r


def result_dt(it, x, y, n):
    r = it.elementwise(lambda u, v: u*v, [it.get_item(x, (0,)*len(x.cshape) + (Ellipsis,), n), it.get_item(y, (0,)*len(y.cshape) + (Ellipsis,), n)], n)
    return r.dtype if isinstance(r, Arr) else ('c16' if 'c' in (x.dtype[0], y.dtype[0]) else 'f8')


@npf('dot', 'matmul')
def np_dot(it, a, k, n):
    x, y = seq_arg(it, a[0], n), seq_arg(it, a[1], n)
    if not isinstance(x, Arr) or not isinstance(y, Arr):
        return it.binop('Mult', x, y, n)
    tx, ty = len(x.cshape) + len(x.dims), len(y.cshape) + len(y.dims)
    r = Top('numpy product')
    if tx <= 2 and ty <= 2 and tx and ty:
        c = max(ty - 2, 0)
        if not x.dims:
            r = contract(it, x, y, c, n)
        elif not y.dims and ty == 1 and len(x.dims) == 0:
            r = contract(it, y, x, tx - 1, n)
    return ufunc_out(it, r, k.get('out', a[2] if len(a) > 2 else None), {}, n)


@npf('tensordot')
def np_tensordot(it, a, k, n):
    x, y = seq_arg(it, a[0], n), seq_arg(it, a[1], n)
    ax = k.get('axes', a[2] if len(a) > 2 else 2)
    if not isinstance(x, Arr) or not isinstance(y, Arr):
        return Top('numpy product')
    if isinstance(ax, (list, tuple)):
        one = lambda q: q[0] if isinstance(q, (list, tuple)) and len(q) == 1 else q
        i, j = one(ax[0]), one(ax[1])
    elif ax == 1:
        i, j = -1, 0
    else:
        return Top('numpy product')
    if not isinstance(i, int) or not isinstance(j, int):
        return Top('numpy product')
    i %= max(len(x.cshape) + len(x.dims), 1)
    j %= max(len(y.cshape) + len(y.dims), 1)
    if not x.dims and i == len(x.cshape) - 1:
        return contract(it, x, y, j, n)
    if not x.dims and len(x.cshape) == 2 and i == 0:
        return contract(it, transposed(it, x, n), y, j, n)
    if not y.dims and len(y.cshape) == 1 and i < len(x.cshape):
        return contract(it, y, x, i, n)
    return Top('numpy product')


def transposed(it, x, n):
    r = it.new_arr(x.cshape[::-1], (), x.dtype)
    for p in range(x.cshape[0]):
        for q in range(x.cshape[1]):
            it.set_item(r, (q, p), it.get_item(x, (p, q), n), n)
    return r


@npf('power', 'float_power')
def np_power(it, a, k, n):
    return binary('Pow')(it, a, k, n)


def seq_arg(it, x, n):
    return as_array(it, x, n) if isinstance(x, (list, tuple)) else x


@npf('maximum', 'fmax')
def np_maximum(it, a, k, n):
    r = it.elementwise(lambda x, y: extremum('max', [x, y]), [seq_arg(it, q, n) for q in a[:2]], n)
    return ufunc_out(it, r, k.get('out', a[2] if len(a) > 2 else None), k, n)


@npf('minimum', 'fmin')
def np_minimum(it, a, k, n):
    r = it.elementwise(lambda x, y: extremum('min', [x, y]), [seq_arg(it, q, n) for q in a[:2]], n)
    return ufunc_out(it, r, k.get('out', a[2] if len(a) > 2 else None), k, n)


@npf('add.reduce')
def np_add_reduce(it, a, k, n):
    v, axis, dt, out = bindkw(a, {q: w for q, w in k.items() if q in ('array', 'axis', 'dtype', 'out')},
                              ['array', 'axis', 'dtype', 'out'], [0, None, None])
    return np_sum(it, [v], dict(axis=axis, out=out), n)


def reduce_of(name):
    def f(it, a, k, n):
        v, axis, dt, out = bindkw(a, {q: w for q, w in k.items() if q in ('array', 'axis', 'dtype', 'out')},
                                  ['array', 'axis', 'dtype', 'out'], [0, None, None])
        return ufunc_out(it, arr_sum(it, v, axis, n, name), out, {}, n)
    return f


NPF['maximum.reduce'] = reduce_of('max')
NPF['minimum.reduce'] = reduce_of('min')
NPF['multiply.reduce'] = reduce_of('prod')


@npf('add.at', 'add.accumulate', 'add.outer', 'add.reduceat', 'multiply.at', 'multiply.outer', 'subtract.at')
def np_ufm(it, a, k, n):
    for x in a:
        it.havoc(x)
    return it.top('ufunc method', n)


@npf('allclose')
def np_allclose(it, a, k, n):
    r = np_isclose(it, a, k, n)
    return NPF['all'](it, [r], {}, n) if isinstance(r, Arr) else r


@npf('array_equal')
def np_array_equal(it, a, k, n):
    if not isinstance(a[0], Arr) or not isinstance(a[1], Arr) or k:
        return it.top('array_equal', n)
    return NPF['all'](it, [NPF['equal'](it, list(a[:2]), {}, n)], {}, n)


@npf('isclose')
def np_isclose(it, a, k, n):
    x, y, rt, at, _ = bindkw(a, k, ['a', 'b', 'rtol', 'atol', 'equal_nan'], [Fraction(1, 10**5), Fraction(1, 10**8), None])
    return close_to(it, x, y, rt, at, n)


def close_to(it, x, y, rt, at, n):
    if isinstance(x, Arr) or isinstance(y, Arr):
        d = NPF['abs'](it, [it.binop('Sub', x, y, n)], {}, n)
        if to_expr(rt) is None or to_expr(at) is None or not isinstance(d, Arr):
            return Top('any/all')
        tol = it.binop('Add', at, it.binop('Mult', rt, NPF['abs'](it, [y], {}, n), n), n)
        return NPF['less_equal'](it, [d, tol], {}, n)
    d = NPF['abs'](it, [it.binop('Sub', x, y, n)], {}, n)
    tol = at
    if X.const_value(to_expr(rt) if to_expr(rt) is not None else lift(1)) != 0:
        tol = it.binop('Add', at, it.binop('Mult', rt, NPF['abs'](it, [y], {}, n), n), n)
    return it.compare('LtE', d, tol, n)


@npf('ndindex')
def np_ndindex(it, a, k, n):
    sh = a[0] if len(a) == 1 and isinstance(a[0], (tuple, list)) else a
    sh = [simp(x) if isinstance(x, Expr) else x for x in sh]
    if not all(isinstance(x, int) for x in sh):
        return it.top('ndindex', n)
    import itertools
    return AList(list(itertools.product(*[range(x) for x in sh])))


@npf('expand_dims')
def np_expand_dims(it, a, k, n):
    v, ax = bindkw(a, k, ['a', 'axis'])
    if not isinstance(v, Arr) or not isinstance(ax, int):
        return it.top('expand_dims', n)
    nd = len(v.shape) + 1
    ax %= nd
    return it.get_item(v, tuple(None if i == ax else slice(None) for i in range(nd)), n)


for _n in ('sqrt', 'exp', 'sin', 'cos', 'tan', 'tanh', 'sinh', 'cosh', 'log', 'abs', 'conj', 'real', 'imag', 'square',
           'floor', 'ceil', 'sign', 'arctan', 'log10', 'negative', 'positive', 'reciprocal', 'angle', 'isnan', 'isfinite', 'isinf', 'log2', 'rint'):
    NPF[_n] = pw(_n, ('real',) if _n in ('abs',) else ())
NPF['absolute'] = NPF['abs']
NPF['conjugate'] = NPF['conj']
for _n, _o in (('add', 'Add'), ('subtract', 'Sub'), ('multiply', 'Mult'), ('divide', 'Div'), ('true_divide', 'Div'),
               ('floor_divide', 'FloorDiv'), ('mod', 'Mod')):
    NPF[_n] = binary(_o)
for _n, _o in (('equal', 'Eq'), ('not_equal', 'NotEq'), ('greater', 'Gt'), ('less', 'Lt'), ('greater_equal', 'GtE'),
               ('less_equal', 'LtE')):
    NPF[_n] = comparison(_o)


@npf('logical_and', 'bitwise_and')
def np_and(it, a, k, n):
    return it.elementwise(lambda x, y: x*y, list(a[:2]), n, dtype='b')


@npf('logical_or', 'bitwise_or')
def np_or(it, a, k, n):
    return it.elementwise(lambda x, y: x + y - x*y, list(a[:2]), n, dtype='b')


@npf('logical_not', 'invert')
def np_not(it, a, k, n):
    return it.elementwise(lambda x: X.ONE - x, list(a[:1]), n, dtype='b')


@npf('vdot', 'linalg.norm', 'norm')
def np_norm(it, a, k, n):
    v = a[0]
    if isinstance(v, Arr):
        s = arr_sum(it, it.elementwise(lambda e: e*X.conj(e), [v], n), None, n)
        return simp(X.func('sqrt', to_expr(s), pointwise=True)) if to_expr(s) is not None else s
    return it.top('norm', n)


@npf('dtype')
def np_dtype(it, a, k, n):
    d = dtype_of(a[0])
    return ext_dtype(d) if d else it.top('dtype', n)


def _np_cast(dt):
    @npf(dt)
    def np_cast(it, a, k, n):
        if not a:
            return 0
        it.event('cast', (dt, a[0]), n)
        v = a[0]
        if isinstance(v, str):
            try:
                return simp(lift(float(v)))
            except ValueError:
                raise AbsRaise('ValueError', 'could not convert string to float', n)
        if dt in ('float32', 'complex64'):
            if isinstance(v, Arr):
                return it.elementwise(it.narrow, [v], n, DT[dt])
            return simp(it.narrow(v)) if isinstance(v, (Expr, Fraction, float)) else v
        return v


for _dt in ('float64', 'float32', 'complex128', 'complex64', 'int64', 'int32', 'bool_', 'float_', 'int_', 'complex_'):
    _np_cast(_dt)


@npf('iscomplexobj')
def np_iscomplexobj(it, a, k, n):
    return isinstance(a[0], Arr) and a[0].dtype in ('c8', 'c16')


@npf('shape')
def np_shape(it, a, k, n):
    return it.get_attr(a[0], 'shape', n)


@npf('ndim')
def np_ndim(it, a, k, n):
    return it.get_attr(a[0], 'ndim', n)


@npf('size')
def np_size(it, a, k, n):
    return it.get_attr(a[0], 'size', n)


@npf('result_type', 'promote_types')
def np_rt(it, a, k, n):
    d = None
    for x in a:
        d = promote(d, x.dtype if isinstance(x, Arr) else dtype_of(x))
    return ext_dtype(d)


def _indicator(x):
    if not isinstance(x, Expr):
        return x
    return X.ONE - X.cond('eq0', x)


def any_all(name):
    def f(it, a, k, n):
        v = seq_arg(it, a[0], n) if a else k.get('a')
        if len(a) > 1 or k.get('axis') is not None or k.get('out') is not None or k.get('where') is not None:
            return it.top('any/all along an axis', n)
        e = to_expr(v)
        if e is not None:
            return it.truth(v, n)
        if not isinstance(v, Arr):
            return it.top('any/all', n)
        ind = v if v.dtype == 'b' else it.elementwise(_indicator, [v], n, dtype='b')
        r = arr_sum(it, ind, None, n, 'max' if name == 'any' else 'min')
        if not isinstance(r, (Expr, int, Fraction)):
            return it.top('any/all', n)
        return it.truth(mkbool(X.ONE - X.cond('eq0', lift(r))), n)
    return f


for _n in ('any', 'all'):
    NPF[_n] = any_all(_n)


@npf('count_nonzero')
def np_count_nonzero(it, a, k, n):
    v = seq_arg(it, a[0], n)
    if not isinstance(v, Arr) or len(a) > 1 or k:
        return it.top('count_nonzero', n)
    return arr_sum(it, v if v.dtype == 'b' else it.elementwise(_indicator, [v], n, dtype='b'), None, n)


@npf('seterr', 'set_printoptions', 'errstate')
def np_noop(it, a, k, n):
    return None


# ---------------------------------------------------------- array attributes
def arr_attr(it, o, name, node):
    if name == 'shape':
        return tuple(simp(x) if isinstance(x, Expr) else x for x in o.shape)
    if name == 'dtype':
        return ext_dtype(o.dtype)
    if name == 'ndim':
        return len(o.shape)
    if name == 'size':
        e = lift(o.size())
        for d in o.dims:
            e = e*lift(d)
        return simp(e)
    if name in ('real', 'imag'):
        f = X.real if name == 'real' else X.imag
        return it.elementwise(f, [o], node, dtype={'c8': 'f4', 'c16': 'f8'}.get(o.dtype, o.dtype))
    if name == 'T':
        if len(o.shape) <= 1:
            return o
        return it.top('transpose', node)
    if name in ('v', '__array__', 'base'):
        r = Arr(o.store, o.cshape, o.idx, o.dims, o.fixed, o.axes)
        r.ivs = getattr(o, 'ivs', ())
        return r
    if name == 'flat':
        return FlatView(o)
    if name == 'flags':
        return MObj(writeable=True)
    if name == 'itemsize':
        return {'f8': 8, 'f4': 4, 'c16': 16, 'c8': 8}.get(o.dtype, 8)
    if name == 'nbytes':
        return X.sym('nbytes', (), ('local', 'real'))
    if name == 'strides':
        return Strides(o)
    if name == 'rank':
        return len(o.cshape)
    if name == 'tensor_rank':
        return len(o.cshape)
    if name in ('space', '_space'):
        return o.space
    py = getattr(o, 'pyattr_' + name, None)
    if py is not None:
        return py
    f = ARRM.get(name)
    if f is not None:
        if name in ('forward', 'backward', 'function_space', 'mask_nyquist', 'to_ortho', 'get_dealiased') and o.space is None:
            if o.kind is None:
                raise AbsRaise('AttributeError', "'numpy.ndarray' object has no attribute '%s'" % name, node)
        return Builtin(name, lambda it, a, k, n: f(it, o, a, k, n))
    return it.top('array attribute %s' % name, node)


class Strides(MObj):
    CLS = 'Strides'

    def __init__(self, arr):
        MObj.__init__(self)
        self.arr = arr


ARRM = {}


def arrm(*names):
    def d(f):
        for n in names:
            ARRM[n] = f
        return f
    return d


@arrm('copy', 'clone')
def am_copy(it, o, a, k, n):
    return it.copy_arr(o)


@arrm('fill')
def am_fill(it, o, a, k, n):
    it.arr_set(o, a[0], n)


@arrm('astype')
def am_astype(it, o, a, k, n):
    d = dtype_of(a[0] if a else k.get('dtype'))
    r = it.copy_arr(o, d)
    if r.dtype == 'i8' and o.dtype in ('f8', 'f4'):
        # conversion to integers drops the fraction
        r.store.cells = [e if not isinstance(e, Expr) or _whole(e) else
                         lift(int(X.const_value(e))) if X.const_value(e) is not None else X.func('trunc', e, pointwise=True)
                         for e in r.store.cells]
    return r


def _whole(e):
    return all(getattr(q, 'denominator', 0) == 1 for q in e.t.values()) and all(
        x.kind in ('ind', 'reg') or any(f in x.flags for f in ('index', 'dim', 'int', 'idem')) or 'stale' in x.flags for x in e.atoms())


@arrm('conj', 'conjugate')
def am_conj(it, o, a, k, n):
    return it.elementwise(X.conj, [o], n)


def _am_red(name):
    def f(it, o, a, k, n):
        if name == 'sum':
            return np_sum(it, [o] + list(a), k, n)
        return np_red(name)(it, [o] + list(a), k, n)
    return f


for _n in ('sum', 'max', 'min', 'prod', 'mean'):
    ARRM[_n] = _am_red(_n)


@arrm('flatten', 'ravel', 'reshape', 'tolist', 'transpose', 'squeeze', 'view', 'dot', 'tobytes', 'std',
      'swapaxes', 'argmax', 'argmin', 'cumsum', 'round')
def am_unknown(it, o, a, k, n):
    return it.top('array method', n)


for _n in ('any', 'all'):
    ARRM[_n] = lambda it, o, a, k, n, _f=NPF[_n]: _f(it, [o] + list(a), k, n)


@arrm('item')
def am_item(it, o, a, k, n):
    return it.get_item(o, tuple(a) if len(a) != 1 else a[0], n) if a else it.arr_get(o)[0]


@arrm('backward')
def am_backward(it, o, a, k, n):
    if o.space is None:
        return it.top('backward of a view', n)
    return transform(it, o.space, 'bwd', [o] + list(a), k, n)


@arrm('forward')
def am_forward(it, o, a, k, n):
    if o.space is None:
        return it.top('forward of a view', n)
    return transform(it, o.space, 'fwd', [o] + list(a), k, n)


@arrm('mask_nyquist')
def am_mask(it, o, a, k, n):
    m = a[0] if a else k.get('mask')
    if m is None:
        m = o.space.flat[0].mask_expr()
    r = it.binop('Mult', o, m, n)
    it.arr_set(o, r, n)
    return o


@arrm('function_space')
def am_fs(it, o, a, k, n):
    return o.space


@arrm('set_boundary_dofs', 'setflags')
def am_noop(it, o, a, k, n):
    return None


# ---------------------------------------------------------------- shenfun
EXT = {}


def extf(*names):
    def d(f):
        for n in names:
            EXT[n] = f
        return f
    return d


@extf('FunctionSpace', 'Basis')
def sf_FunctionSpace(it, a, k, n):
    kw = dict(k)
    N = a[0] if a else kw.get('N')
    fam = a[1] if len(a) > 1 else kw.get('family', 'F')
    b = Basis(N, fam, kw.get('bc', a[2] if len(a) > 2 else None), kw.get('quad'), kw.get('domain'), kw.get('dtype'))
    return b


@extf('ShenDirichlet')
def sf_SD(it, a, k, n):
    N, quad, bc = bindkw(a, {q: v for q, v in k.items() if q in ('N', 'quad', 'bc')}, ['N', 'quad', 'bc'], ['GC', (0, 0)])
    return Basis(N, 'C', bc, quad, kind='D')


@extf('ShenBiharmonic')
def sf_SB(it, a, k, n):
    N, quad = bindkw(a, {q: v for q, v in k.items() if q in ('N', 'quad')}, ['N', 'quad'], ['GC'])
    return Basis(N, 'C', (0, 0, 0, 0), quad, kind='B')


@extf('Orthogonal')
def sf_ortho(it, a, k, n):
    N, quad = bindkw(a, {q: v for q, v in k.items() if q in ('N', 'quad')}, ['N', 'quad'], ['GC'])
    return Basis(N, 'C', None, quad)


@extf('TensorProductSpace')
def sf_TPS(it, a, k, n):
    comm, bases = a[0], it.iterate(a[1], n)
    for b in bases:
        if not isinstance(b, Basis):
            return it.top('tensor product space', n)
    t = TPS(bases, k.get('dtype'), '', dict(k))
    it.event('space', t, n)
    return t


@extf('VectorSpace')
def sf_VS(it, a, k, n):
    s = a[0]
    if isinstance(s, (list, tuple)):
        return CSpace(list(s), True)
    if isinstance(s, TPS):
        return CSpace([s]*s.nd(), True)
    if isinstance(s, CSpace):
        return CSpace([s]*s.nd(), True)
    return it.top('VectorSpace', n)


@extf('CompositeSpace', 'MixedTensorProductSpace')
def sf_CS(it, a, k, n):
    s = it.iterate(a[0], n)
    if s is None or not all(isinstance(q, (TPS, CSpace)) for q in s):
        return it.top('CompositeSpace', n)
    return CSpace(s)


def _mkfun(kind):
    def f(it, a, k, n):
        space = a[0] if a else k.get('space')
        buf = k.get('buffer', a[2] if len(a) > 2 else None)
        val = k.get('val', a[1] if len(a) > 1 else 0)
        if not isinstance(space, (TPS, CSpace)):
            return it.top('%s on unknown space' % kind, n)
        sp = kind == 'Function'
        c = (space.ncomp(),) if isinstance(space, CSpace) else ()
        if isinstance(buf, Arr):
            check_shape(it, buf, c + tuple(space.dims(sp)), '%s buffer' % kind, n)
            v = Arr(buf.store, buf.cshape, buf.idx, buf.dims, buf.fixed, buf.axes, space, kind)
            return v
        r = it.new_arr(c, space.dims(sp), space.arr_dtype(sp), space=space, kind=kind)
        if buf is not None:
            it.arr_set(r, Top('initialised from expression'), n)
        elif not (isinstance(val, int) and val == 0):
            it.arr_set(r, val, n)
        r.store.name = None
        return r
    return f


EXT['Function'] = _mkfun('Function')
EXT['Array'] = _mkfun('Array')


class WorkArrays(MObj):
    CLS = 'WorkArrays'

    def __init__(self):
        MObj.__init__(self)
        self.data = ADict()

    def get(self, it, key, node):
        if not isinstance(key, tuple) or len(key) != 3:
            raise AbsRaise('AssertionError', 'work array key must have three entries', node)
        arr, idx, fill = key
        if isinstance(arr, Top):
            return it.top('work array of unknown', node)
        if not isinstance(arr, Arr):
            raise AbsRaise('AttributeError', "work array key %s has no shape" % type(arr).__name__, node)
        kk = (tuple(str(s) for s in arr.shape), arr.dtype, idx)
        if kk not in self.data:
            r = it.new_arr(arr.cshape, arr.dims, arr.dtype, name='work%s' % (kk,))
            r.work_key = kk
            stale_fill(it, r, 'work%s' % idx)
            self.data[kk] = r
        r = self.data[kk]
        f = it.truth(fill)
        if f is True:
            it.arr_set(r, 0, node)
        it.event('work', (kk, f, r.store), node)
        v = Arr(r.store, r.cshape, r.idx, r.dims, r.fixed, r.axes)
        v.work_key = kk
        return v


@extf('CachedArrayDict', 'work_arrays')
def sf_work(it, a, k, n):
    return WorkArrays()


# inner product matrices ------------------------------------------------
class Mat(MObj):
    CLS = 'Mat'

    def __init__(self, key, scale=X.ONE):
        MObj.__init__(self)
        self.key = key
        self.scale = scale

    def op(self, v, axis):
        return self.scale*X.linop(('mat', self.key), v, axis)

    def m_matvec(self, it, a, k, n):
        v, c, fmt, axis = bindkw(a, k, ['v', 'c', 'format', 'axis'], [None, 0])
        return mat_apply(it, lambda e, ax: self.op(e, ax), v, c, axis, n)

    def m_dot(self, it, a, k, n):
        v = a[0]
        axis = k.get('axis', 0)
        c = it.new_arr(v.cshape, v.dims, v.dtype)
        return mat_apply(it, lambda e, ax: self.op(e, ax), v, c, axis, n)

    def m_solve(self, it, a, k, n):
        b, u, axis, cons = bindkw(a, k, ['b', 'u', 'axis', 'constraints'], [None, 0, ()])
        return solve_apply(it, lambda e, ax: X.linop(('inv', self.key), e*X.inverse(self.scale), ax), b, u, axis, n)

    def m_get_key(self, it, a, k, n):
        return str(self.key)

    def p_shape(self, it, n):
        return (X.sym('nrow', (), ('pos', 'real')), X.sym('ncol', (), ('pos', 'real')))

    def item(self, it, k, node):
        if isinstance(k, int):
            return Diag(self.key, k, self.scale)
        return it.top('matrix item', node)


class Diag(MObj):
    CLS = 'Diag'

    def __init__(self, key, k, scale):
        MObj.__init__(self)
        self.key, self.k, self.scale = key, k, scale

    def item(self, it, i, node):
        if isinstance(i, int):
            return self.scale*X.sym('diag%s[%d][%d]' % (self.key, self.k, i), (), ('real',))
        return it.top('matrix diagonal item', node)


def visible_axis(arr, axis):
    """Store axis carried by array dimension `axis` (component-free arrays)."""
    nc = len(arr.cshape)
    i = axis - nc if axis >= nc else None
    if i is None or i >= len(arr.dims):
        return None
    return arr.axes[i]


def shares(a, b):
    if a.store is not b.store or not set(a.idx) & set(b.idx):
        return False
    fa, fb = dict((x for x in a.fixed)), dict((x for x in b.fixed))
    for ax in set(fa) & set(fb):
        if isinstance(fa[ax], int) and isinstance(fb[ax], int) and fa[ax] != fb[ax]:
            return False
    return True


def mat_apply(it, op, v, c, axis, n):
    if isinstance(v, Top) or isinstance(c, Top):
        if isinstance(c, Arr):
            it.arr_set(c, Top('matvec of unknown'), n)
            return c
        return Top('matvec of unknown')
    if not isinstance(v, Arr) or not isinstance(c, Arr):
        raise AbsRaise('AttributeError', 'matvec on non-array', n)
    axis = simp(axis) if isinstance(axis, Expr) else axis
    if not isinstance(axis, int):
        return it.top('matvec axis', n)
    if len(v.shape) > 1 and axis >= len(v.shape):
        raise AbsRaise('ValueError', 'matvec axis out of range', n)
    axes = op_axes(it, v, axis)
    if shares(v, c):
        it.suspects.append(('matvec-alias', it.loc(n), 'matvec output overwrites its own input'))
        it.arr_set(c, 0, n)
    vals = it.arr_get(v)
    r = it.new_arr(v.cshape, v.dims, c.dtype)
    r.axes = v.axes if v.axes == r.axes else r.axes
    r.store.cells = [x if isinstance(x, Top) else op(x, axes) for x in vals]
    it.arr_set(c, r, n)
    return c


def op_axes(it, v, axis):
    if len(v.shape) == 1:
        dep = set()
        for x in it.arr_get(v):
            if isinstance(x, Expr):
                for a in x.atoms():
                    dep |= a.dep
        return frozenset(dep) if len(dep) == 1 else X.ALL
    if v.cshape:
        # matrix along a stored axis counted including components
        ax = visible_axis(v, axis)
        return frozenset((ax,)) if ax is not None else frozenset(('comp',))
    ax = v.axes[axis]
    return frozenset((ax if ax is not None else axis,))


def solve_apply(it, op, b, u, axis, n):
    if isinstance(b, Top):
        if isinstance(u, Arr):
            it.arr_set(u, Top('solve'), n)
            return u
        return Top('solve')
    if not isinstance(b, Arr):
        raise AbsRaise('AttributeError', 'solver applied to non-array', n)
    axes = op_axes(it, b, axis)
    vals = it.arr_get(b)
    r = it.new_arr(b.cshape, b.dims, b.dtype)
    r.store.cells = [x if isinstance(x, Top) else op(x, axes) for x in vals]
    out = u if isinstance(u, Arr) else b
    it.arr_set(out, r, n)
    it.event('solve', (b, out), n)
    return out


@extf('inner_product')
def sf_inner_product(it, a, k, n):
    t, s = a[0], a[1]
    (tb, td), (sb, sd) = t, s
    if not isinstance(tb, Basis) or not isinstance(sb, Basis):
        return it.top('inner_product', n)
    return Mat((tb.msig(), scal(td), sb.msig(), scal(sd)))


class LinSolver(MObj):
    """Helmholtz / Biharmonic solver along the wall-normal axis."""
    CLS = 'LinSolver'

    def __init__(self, name, keys, coefs, axis):
        MObj.__init__(self)
        self.name, self.keys, self.coefs, self.axis = name, keys, coefs, axis

    def call(self, it, a, k, n):
        b, u = bindkw(a, {q: v for q, v in k.items() if q in ('b', 'u')}, ['b', 'u'], [None])
        lead = self.coefs[0]
        if any(isinstance(c, Top) for c in self.coefs):
            op = lambda e, ax: Top('solver coefficients')
            if isinstance(u, Arr):
                it.arr_set(u, Top('solver'), n)
            return u if u is not None else Top('solver')
        rest = tuple(c/lead for c in self.coefs[1:])

        def op(e, ax):
            return X.linop(('solve', self.name, self.keys) + rest, e/lead, ax)
        # real solvers assign into u; u None solves in place
        axis = self.axis
        if len(b.shape) == 1:
            axis = 0
        elif isinstance(b, Arr) and not b.cshape and axis is None:
            axis = 0
        if u is not None and isinstance(u, Arr):
            if len(u.shape) != len(b.shape):
                raise AbsRaise('ValueError', 'solver output has wrong rank', n)
        return solve_apply(it, op, b, u, axis, n)


def coef_of(it, c):
    """(scalar coefficient Expr, axis along which it is constant)."""
    if isinstance(c, Arr):
        if c.size() != 1:
            return Top('coefficient'), None
        v = it.arr_get(c)[0]
        return v, None
    e = to_expr(c)
    return (e if e is not None else Top('coefficient')), None


def solver_axis(coefs):
    """The axis every coefficient array has length one along."""
    best = None
    for c in coefs:
        if isinstance(c, Arr) and len(c.shape) > 1:
            ones = [i for i, d in enumerate(c.shape) if _one(d)]
            if len(ones) == 1:
                best = ones[0]
            elif best is None and len(ones) == len(c.shape):
                pass
    return best


@extf('Helmholtz')
def sf_Helmholtz(it, a, k, n):
    if len(a) != 4 or not isinstance(a[0], Mat) or not isinstance(a[1], Mat):
        return it.top('Helmholtz solver arguments', n)
    cs = [coef_of(it, c)[0] for c in a[2:]]
    return LinSolver('helmholtz', (a[0].key, a[1].key), cs, solver_axis(a[2:]))


@extf('Biharmonic')
def sf_Biharmonic(it, a, k, n):
    if len(a) != 6 or not all(isinstance(x, Mat) for x in a[:3]):
        return it.top('Biharmonic solver arguments', n)
    cs = [coef_of(it, c)[0] for c in a[3:]]
    return LinSolver('biharmonic', tuple(x.key for x in a[:3]), cs, solver_axis(a[3:]))


class TDMASolver(MObj):
    CLS = 'TDMA'

    def __init__(self, mat):
        MObj.__init__(self)
        self.mat = mat

    def call(self, it, a, k, n):
        b, u, axis = bindkw(a, {q: v for q, v in k.items() if q in ('b', 'u', 'axis')}, ['b', 'u', 'axis'], [None, 0])
        return self.mat.m_solve(it, [b, u, axis], {}, n)


@extf('TDMA', 'PDMA', 'Solve', 'TDMA_O')
def sf_TDMA(it, a, k, n):
    if not isinstance(a[0], Mat):
        return it.top('TDMA of unknown', n)
    return TDMASolver(a[0])


@extf('Helmholtz_matvec')
def sf_helm_matvec(it, a, k, n):
    v, c, alfa, beta, A, B, axis = bindkw(a, k, ['v', 'b', 'alfa', 'beta', 'A', 'B', 'axis'], [0])
    if not isinstance(A, Mat) or not isinstance(B, Mat):
        return it.top('Helmholtz_matvec', n)
    al, be = coef_of(it, alfa)[0], coef_of(it, beta)[0]

    def op(e, ax):
        if isinstance(al, Top) or isinstance(be, Top):
            return Top('coefficient')
        return al*A.op(e, ax) + be*B.op(e, ax)
    return mat_apply(it, op, v, c, axis, n)


@extf('Biharmonic_matvec')
def sf_bih_matvec(it, a, k, n):
    names = ['v', 'b', 'a0', 'alfa', 'beta', 'S0', 'S2', 'S4', 'Am2', 'A0', 'A2', 'Bm4', 'Bm2', 'B0', 'B2', 'B4', 'axis']
    vals = dict(zip(names, bindkw(a, k, names, [0])))
    want = {'S0': 0, 'S2': 2, 'S4': 4, 'Am2': -2, 'A0': 0, 'A2': 2, 'Bm4': -4, 'Bm2': -2, 'B0': 0, 'B2': 2, 'B4': 4}
    mats = {}
    bad = []
    for q, off in want.items():
        d = vals[q]
        if not isinstance(d, Diag):
            return it.top('Biharmonic_matvec diagonal', n)
        mats.setdefault(q[0], set()).add(d.key)
        if d.k != off:
            bad.append(q)
    cf = [coef_of(it, vals[q])[0] for q in ('a0', 'alfa', 'beta')]
    if bad or any(len(m) > 1 for m in mats.values()):
        key = tuple((q, vals[q].key, vals[q].k) for q in sorted(want))
        ops = [lambda e, ax, j=j: X.linop(('baddiags', key, j), e, ax) for j in range(3)]
    else:
        ops = [Mat(next(iter(mats[q]))).op for q in 'SAB']

    def op(e, ax):
        if any(isinstance(c, Top) for c in cf):
            return Top('coefficient')
        r = X.ZERO
        for c, o in zip(cf, ops):
            r = r + c*o(e, ax)
        return r
    return mat_apply(it, op, vals['v'], vals['b'], vals['axis'], n)


# forms -----------------------------------------------------------------
class Form(MObj):
    """Linear expression in a test/trial function or in given fields.

    comps: tensor of dicts  (comp id, spacesig, derivative tuple) -> Expr"""
    CLS = 'Form'

    def __init__(self, kind, comps, shape, space):
        MObj.__init__(self)
        self.kind, self.comps, self.shape, self.space = kind, comps, tuple(shape), space

    def scaled(self, e):
        return Form(self.kind, [{q: v*e for q, v in c.items()} for c in self.comps], self.shape, self.space)

    def plus(self, o, s=1):
        if o.shape != self.shape:
            raise AbsRaise('ValueError', 'form rank mismatch')
        comps = []
        for p, q in zip(self.comps, o.comps):
            d = dict(p)
            for key, v in q.items():
                d[key] = d.get(key, X.ZERO) + v*lift(s)
            comps.append({a: b for a, b in d.items() if not b.is_zero()})
        return Form(self.kind if self.kind == o.kind else 'field', comps, self.shape, self.space)

    def size(self):
        return len(self.comps)


def base_form(kind, space):
    flat = space.flat
    comps = [{(i, t, (0,)*t.nd()): X.ONE} for i, t in enumerate(flat)]
    shape = (len(flat),) if isinstance(space, CSpace) else ()
    return Form(kind, comps, shape, space)


@extf('TestFunction')
def sf_Test(it, a, k, n):
    return base_form('test', a[0]) if isinstance(a[0], (TPS, CSpace)) else it.top('TestFunction', n)


@extf('TrialFunction')
def sf_Trial(it, a, k, n):
    return base_form('trial', a[0]) if isinstance(a[0], (TPS, CSpace)) else it.top('TrialFunction', n)


def as_form(it, f, node):
    if isinstance(f, Form):
        return f
    if isinstance(f, Arr) and f.kind == 'Function' and f.space is not None:
        vals = it.arr_get(f)
        comps = []
        for v, t in zip(vals, f.space.flat):
            comps.append({('f', t, (0,)*t.nd()): v if not isinstance(v, Top) else X.sym(it.fresh('unknown'), (0, 1, 2), ('unknown',))})
        return Form('field', comps, f.cshape, f.space)
    return None


def d_terms(comp, axis, times=1):
    """Derivative of one scalar component along axis."""
    out = {}
    for (cid, t, ds), v in comp.items():
        if t.bases[axis].family == 'F' and cid == 'f':
            K = X.sym('K%d' % axis, (axis,), ('real', 'wavenum'))
            nv = v
            for _ in range(times):
                nv = nv*X.IMAG*K
            key = (cid, t, ds)
        else:
            d2 = list(ds)
            d2[axis] += times
            key = (cid, t, tuple(d2))
            nv = v
        out[key] = out.get(key, X.ZERO) + nv
    return {a: b for a, b in out.items() if not b.is_zero()}


def addd(*terms):
    d = {}
    for s, t in terms:
        for k, v in t.items():
            d[k] = d.get(k, X.ZERO) + v*lift(s)
    return {a: b for a, b in d.items() if not b.is_zero()}


@extf('Dx')
def sf_Dx(it, a, k, n):
    f, ax, times = bindkw(a, k, ['test', 'x', 'k'], [1])
    F = as_form(it, f, n)
    if F is None or not isinstance(ax, int) or not isinstance(times, int):
        return it.top('Dx of unknown', n)
    return Form(F.kind, [d_terms(c, ax, times) for c in F.comps], F.shape, F.space)


@extf('grad')
def sf_grad(it, a, k, n):
    F = as_form(it, a[0], n)
    if F is None:
        return it.top('grad of unknown', n)
    nd = F.space.nd()
    comps = [d_terms(c, j) for c in F.comps for j in range(nd)]
    return Form(F.kind, comps, F.shape + (nd,), F.space)


@extf('div')
def sf_div(it, a, k, n):
    F = as_form(it, a[0], n)
    if F is None or not F.shape:
        return it.top('div of unknown', n)
    nd = F.shape[-1]
    lead = len(F.comps)//nd
    comps = [addd(*[(1, d_terms(F.comps[i*nd+j], j)) for j in range(nd)]) for i in range(lead)]
    return Form(F.kind, comps, F.shape[:-1], F.space)


@extf('curl')
def sf_curl(it, a, k, n):
    F = as_form(it, a[0], n)
    if F is None or F.shape not in ((3,), (2,)):
        return it.top('curl of unknown', n)
    c = F.comps
    if F.shape == (3,):
        comps = [addd((1, d_terms(c[(i+2) % 3], (i+1) % 3)), (-1, d_terms(c[(i+1) % 3], (i+2) % 3))) for i in range(3)]
        return Form(F.kind, comps, (3,), F.space)
    return Form(F.kind, [addd((1, d_terms(c[1], 0)), (-1, d_terms(c[0], 1)))], (), F.space)


@extf('dot')
def sf_dot(it, a, k, n):
    return Top('dot')


def cheb_project(src, d, dst, v, ax):
    """Galerkin projection of the d'th derivative; exact onto the orthogonal basis."""
    if src[0] == 'D' and d == 1 and dst[0] == 'T':
        return X.linop(('ctd',), v, ax)
    return X.linop(('inv', (dst, 0, dst, 0)), X.linop(('mat', (dst, 0, src, d)), v, ax), ax)


def proj_comp(it, comp, T):
    """Galerkin projection of one scalar component onto T."""
    r = X.ZERO
    ca = T.cheb_axis()
    for (cid, t, ds), v in comp.items():
        fd = [i for i in range(t.nd()) if i != ca and ds[i]]
        if fd:
            return Top('projection')
        d = ds[ca] if ca is not None else 0
        src = t.bases[ca].sig() if ca is not None else None
        dst = T.bases[ca].sig() if ca is not None else None
        if ca is None or (d == 0 and src == dst):
            r = r + v
        else:
            r = r + cheb_project(src[:3], d, dst[:3], v, frozenset((ca,)))
    return r


@extf('project', 'Project')
def sf_project(it, a, k, n):
    f = a[0]
    T = a[1] if len(a) > 1 else k.get('T')
    out = k.get('output_array', a[2] if len(a) > 2 else None)
    F = as_form(it, f, n)
    if F is None or not isinstance(T, (TPS, CSpace)):
        if isinstance(f, Arr) and f.kind == 'Array' and isinstance(T, (TPS, CSpace)):
            return transform(it, T, 'fwd', [f, out], {}, n)
        if isinstance(out, Arr):
            it.havoc(out)
        return it.top('project of unknown', n)
    flat = T.flat
    if len(flat) != len(F.comps):
        raise AbsRaise('ValueError', 'projection of %d components on a space of %d' % (len(F.comps), len(flat)), n)
    if not isinstance(out, Arr):
        out = it.new_arr((len(flat),) if isinstance(T, CSpace) else (), T.dims(True), T.arr_dtype(True), space=T, kind='Function')
    r = it.new_arr(out.cshape, out.dims, out.dtype)
    r.store.cells = [proj_comp(it, c, t) for c, t in zip(F.comps, flat)]
    it.arr_set(out, r, n)
    return out


class Bilinear(MObj):
    """Sum of (test component, test space, dtest, trial comp, trial space, dtrial) -> Expr."""
    CLS = 'Bilinear'

    def __init__(self, terms):
        MObj.__init__(self)
        self.terms = terms

    def p_mats(self, it, n):
        return AList([Top('matrix')])

    def m_solve(self, it, a, k, n):
        b = a[0]
        u = a[1] if len(a) > 1 else k.get('u')
        if isinstance(b, Arr) and isinstance(u, Arr):
            key = canon_terms(self.terms)
            vals = it.arr_get(b)
            r = it.new_arr(b.cshape, b.dims, b.dtype)
            r.store.cells = [v if isinstance(v, Top) else X.linop(('tpsolve', key), v, frozenset(range(b.space.nd() if b.space else 3)))
                             for v in vals]
            it.arr_set(u, r, n)
            return u
        return Top('solve')


def canon_terms(terms):
    out = []
    for (ti, tt, td, si, st, sd), v in terms.items():
        out.append((ti, tt.msig(), td, si, st.msig(), sd, str(v)))
    return tuple(sorted(out, key=repr))


@extf('inner')
def sf_inner(it, a, k, n):
    f, g = a[0], a[1]
    out = k.get('output_array', a[2] if len(a) > 2 else None)
    ft = f.kind if isinstance(f, Form) else None
    gt = g.kind if isinstance(g, Form) else None
    if gt == 'test' and ft != 'test':
        f, g, ft, gt = g, f, gt, ft
    if ft != 'test':
        return it.top('inner without test function', n)
    if isinstance(g, Arr) and g.kind == 'Array':
        vals = it.arr_get(g)
        comps = f.comps
        if len(vals) != len(comps):
            return it.top('inner rank', n)
        space = f.space
        r = it.new_arr(f.shape, space.dims(True), space.arr_dtype(True), space=space, kind='Function')
        cells = []
        for c, v in zip(comps, vals):
            acc = X.ZERO
            for (cid, t, ds), cf in c.items():
                if isinstance(v, Top):
                    acc = v
                    break
                acc = acc + cf*X.linop(('scp', t.sig(), t.variant, ds), v, frozenset(range(t.nd())))
            cells.append(acc)
        r.store.cells = cells
        if isinstance(out, Arr):
            it.arr_set(out, r, n)
            return out
        return r
    G = as_form(it, g, n)
    if G is None:
        if to_expr(g) is not None:
            return it.top('inner with constant', n)
        return it.top('inner with unknown', n)
    if len(G.comps) != len(f.comps):
        raise AbsRaise('ValueError', 'inner of different ranks', n)
    if G.kind == 'trial':
        terms = {}
        for ct, cs in zip(f.comps, G.comps):
            for (ti, tt, td), v in ct.items():
                for (si, st, sd), w in cs.items():
                    # Fourier directions: derivatives become wavenumbers
                    cf = v*w
                    td2, sd2 = list(td), list(sd)
                    for ax, b in enumerate(st.bases):
                        if b.family == 'F':
                            K = X.sym('K%d' % ax, (ax,), ('real', 'wavenum'))
                            cf = cf*(X.IMAG*K)**sd2[ax]*(-X.IMAG*K)**td2[ax]
                            td2[ax] = sd2[ax] = 0
                    key = (ti, tt, tuple(td2), si, st, tuple(sd2))
                    terms[key] = terms.get(key, X.ZERO) + cf
        return Bilinear({q: v for q, v in terms.items() if not v.is_zero()})
    # linear form on a spectral field
    space = f.space
    ca = space.flat[0].cheb_axis()
    ncomp = space.ncomp()
    cells = [X.ZERO]*ncomp
    sig_shape = f.shape
    for pos, (ct, cs) in enumerate(zip(f.comps, G.comps)):
        for (ti, tt, td), v in ct.items():
            for (cid, st, sd), w in cs.items():
                cf = v
                for ax, b in enumerate(tt.bases):
                    if b.family == 'F' and td[ax]:
                        cf = cf*(-X.IMAG*X.sym('K%d' % ax, (ax,), ('real', 'wavenum')))**td[ax]
                if ca is None:
                    e = X.linop(('fmass', tt.msig()), w, frozenset(range(tt.nd())))
                else:
                    e = X.linop(('mat', (tt.bases[ca].msig(), td[ca], st.bases[ca].msig(), sd[ca])), w, frozenset((ca,)))
                cells[ti] = cells[ti] + cf*e
    # result shape follows the test space restricted to the components used
    used = sorted({ti for ct in f.comps for (ti, _, _) in ct})
    cells = [cells[i] for i in used]
    c = (len(used),) if len(f.shape) else ()
    r = it.new_arr(c, space.flat[0].dims(True), space.flat[0].arr_dtype(True), space=sub_space(space, used), kind='Function')
    r.store.cells = cells
    if isinstance(out, Arr):
        it.arr_set(out, r, n)
        return out
    return r


def sub_space(space, used):
    flat = space.flat
    if len(used) == 1 and not isinstance(space, CSpace):
        return space
    if used == list(range(len(flat))):
        return space
    return CSpace([flat[i] for i in used], True)


class BlockMat(MObj):
    CLS = 'BlockMat'

    def __init__(self, terms):
        MObj.__init__(self)
        self.terms = terms

    def m_solve(self, it, a, k, n):
        b, u, cons = bindkw(a, {q: v for q, v in k.items() if q in ('b', 'u', 'constraints')},
                            ['b', 'u', 'constraints'], [None, ()])
        it.event('bsolve', (self, b, u, cons), n)
        if not isinstance(b, Arr):
            return it.top('block solve', n)
        hook = it.config.get('bsolve')
        if hook:
            out = u if isinstance(u, Arr) else b
            hook(self.terms, it.arr_get(b), out, cons, it.loc(n))
            return out
        key = canon_terms(self.terms)
        ck = scal(cons)
        vals = it.arr_get(b)
        nt = len(vals)
        out = u if isinstance(u, Arr) else it.new_arr(b.cshape, b.dims, b.dtype, space=b.space, kind='Function')
        ca = None
        for (ti, tt, td, si, st, sd) in self.terms:
            ca = tt.cheb_axis()
        ax = frozenset((ca if ca is not None else 0,))
        cells = []
        for i in range(nt):
            acc = X.ZERO
            for j, v in enumerate(vals):
                if isinstance(v, Top):
                    acc = v
                    break
                acc = acc + X.linop(('bsolve', key, ck, i, j), v, ax)
            cells.append(acc)
        r = it.new_arr(b.cshape, b.dims, b.dtype)
        r.store.cells = cells
        it.arr_set(out, r, n)
        return out


@extf('BlockMatrix', 'BlockMatrixSolver')
def sf_BlockMatrix(it, a, k, n):
    seq = a[0]
    if isinstance(seq, Bilinear):
        seq = [seq]
    terms = {}
    for t in it.iterate(seq, n) or []:
        if not isinstance(t, Bilinear):
            return it.top('BlockMatrix', n)
        for q, v in t.terms.items():
            terms[q] = terms.get(q, X.ZERO) + v
    return BlockMat({q: v for q, v in terms.items() if not v.is_zero()})


# files -------------------------------------------------------------------
def disk_file(it, name):
    """Abstract contents of a file: attributes and written snapshots."""
    disk = it.config.setdefault('disk', {})
    return disk.setdefault(str(name), {'attrs': {}, 'data': {}})


class SFile(MObj):
    """shenfun.ShenfunFile: the constructor opens the file with the given mode
    (`w` truncates) and closes it; open() uses r+ unless told otherwise."""
    CLS = 'ShenfunFile'

    def __init__(self, name, space, mode, loc):
        MObj.__init__(self)
        self.name, self.space, self.mode = name, space, mode
        self.attrs['f'] = None
        self.attrs['filename'] = name

    def m_open(self, it, a, k, n):
        mode = a[0] if a else k.get('mode', 'r+')
        it.event('file', ('open', self.name, a, k), n)
        if mode == 'w':
            d = disk_file(it, self.name)
            d['attrs'].clear()
            d['data'].clear()
        self.attrs['f'] = H5(self)
        return None

    def m_close(self, it, a, k, n):
        it.event('file', ('close', self.name, a, k), n)
        self.attrs['f'] = None
        return None

    def m_write(self, it, a, k, n):
        # opens and closes the file itself when it is closed
        step, fields = bindkw(a, {q: v for q, v in k.items() if q in ('step', 'fields')}, ['step', 'fields'], [None])
        snap = {}
        if isinstance(fields, dict):
            for nm, lst in fields.items():
                snap[nm] = [snap_field(it, x) for x in (lst if isinstance(lst, (list, tuple)) else [lst])]
        sc = k.get('as_scalar', False)
        d = disk_file(it, self.name)
        for nm, v in snap.items():
            d['data'][(simp(step) if isinstance(step, Expr) else step, nm)] = (v, it.truth(sc) if not isinstance(sc, bool) else sc)
        it.event('file', ('write', self.name, list(a), dict(k), self, snap), n)
        self.attrs['f'] = None
        return None

    def m_read(self, it, a, k, n):
        it.event('file', ('read', self.name, list(a), dict(k), self), n)
        for x in a:
            it.havoc(x)
        return None


def snap_field(it, x):
    if isinstance(x, (tuple, list)) and x and isinstance(x[0], Arr):
        return ('slice', list(it.arr_get(x[0])), x[1] if len(x) > 1 else None)
    if isinstance(x, Arr):
        return list(it.arr_get(x))
    return x


class H5(MObj):
    CLS = 'H5'

    def __init__(self, f):
        MObj.__init__(self)
        self.file = f
        self.attrs['attrs'] = H5Attrs(f)


class H5Attrs(MObj):
    CLS = 'H5Attrs'

    def __init__(self, f):
        MObj.__init__(self)
        self.file = f

    def m_create(self, it, a, k, n):
        nm, v = bindkw(a, {q: x for q, x in k.items() if q in ('name', 'data')}, ['name', 'data'], [None])
        disk_file(it, self.file.name)['attrs'][nm] = v
        it.event('file', ('attr-create', self.file.name, list(a), dict(k)), n)

    def m_modify(self, it, a, k, n):
        self.setitem(it, a[0], a[1], n)

    def m_update(self, it, a, k, n):
        d = it.dict_items(a[0]) if a else {}
        if d is None:
            raise AnalysisError('attrs.update with unknown')
        d.update(k)
        for q, v in d.items():
            self.setitem(it, q, v, n)

    def m_get(self, it, a, k, n):
        return disk_file(it, self.file.name)['attrs'].get(a[0], a[1] if len(a) > 1 else None)

    def m_keys(self, it, a, k, n):
        return AList(disk_file(it, self.file.name)['attrs'])

    def item(self, it, k, node):
        it.event('file', ('attr-read', self.file.name, [k], {}), node)
        d = disk_file(it, self.file.name)['attrs']
        if k in d:
            return d[k]
        return X.sym('attr_%s' % k)

    def setitem(self, it, k, v, node):
        if self.file.attrs.get('f') is None:
            it.suspects.append(('file-closed', it.loc(node), 'attribute written to a closed file'))
        disk_file(it, self.file.name)['attrs'][k] = v
        it.event('file', ('attr-set', self.file.name, [k, v], {}), node)


@extf('ShenfunFile')
def sf_file(it, a, k, n):
    name = a[0]
    space = a[1] if len(a) > 1 else k.get('T')
    mode = k.get('mode', 'r')
    it.event('file', ('create', name, list(a), dict(k)), n)
    d = disk_file(it, name)
    if mode == 'w':
        d['attrs'].clear()
        d['data'].clear()
    return SFile(name, space, mode, it.loc(n))


@extf('HDF5File', 'NCFile')
def sf_hfile(it, a, k, n):
    return SFile(a[0], k.get('domain'), k.get('mode', 'r'), it.loc(n))


# -------------------------------------------------------------------- MPI
class Comm(MObj):
    CLS = 'Comm'

    def m_Get_rank(self, it, a, k, n):
        return it.rank

    def p_rank(self, it, n):
        return it.rank

    def p_size(self, it, n):
        return X.sym('nprocs', (), ('pos', 'real'))

    def m_Get_size(self, it, a, k, n):
        return X.sym('nprocs', (), ('pos', 'real'))

    def _ev(self, it, name, a, k, n):
        it.event('mpi', (name, list(a), dict(k)), n)

    def m_reduce(self, it, a, k, n):
        v, op, root = bindkw(a, k, ['sendobj', 'op', 'root'], [Ext('mpi4py.MPI.SUM'), 0])
        self._ev(it, 'reduce', [v, op, root], {}, n)
        if it.rank == root:
            return gather(it, 'reduce', op, v)
        return None

    def m_allreduce(self, it, a, k, n):
        v, op = bindkw(a, k, ['sendobj', 'op'], [Ext('mpi4py.MPI.SUM')])
        self._ev(it, 'allreduce', [v, op], {}, n)
        return gather(it, 'allreduce', op, v)

    def m_bcast(self, it, a, k, n):
        v, root = bindkw(a, k, ['obj', 'root'], [0])
        self._ev(it, 'bcast', [v, root], {}, n)
        nb = it.config.setdefault('nbcast', 0)
        it.config['nbcast'] = nb + 1
        if it.rank == root:
            return v
        log = it.config.get('bcast_log')
        if log and nb < len(log):
            return uniform_copy(it, log[nb])
        return Top('broadcast value')

    def m_gather(self, it, a, k, n):
        self._ev(it, 'gather', a, k, n)
        return Top('gather') if it.rank == 0 else None

    def m_allgather(self, it, a, k, n):
        self._ev(it, 'allgather', a, k, n)
        return Top('allgather')

    def m_scatter(self, it, a, k, n):
        self._ev(it, 'scatter', a, k, n)
        return Top('scatter')

    def m_barrier(self, it, a, k, n):
        self._ev(it, 'barrier', a, k, n)

    m_Barrier = m_barrier

    def m_Reduce(self, it, a, k, n):
        s, r, op, root = bindkw(a, k, ['sendbuf', 'recvbuf', 'op', 'root'], [Ext('mpi4py.MPI.SUM'), 0])
        self._ev(it, 'Reduce', [s, r, op, root], {}, n)
        if it.rank == root and isinstance(r, Arr) and isinstance(s, Arr):
            self._buf(it, 'reduce', op, s, r, n)

    def m_Allreduce(self, it, a, k, n):
        s, r, op = bindkw(a, k, ['sendbuf', 'recvbuf', 'op'], [Ext('mpi4py.MPI.SUM')])
        self._ev(it, 'Allreduce', [s, r, op], {}, n)
        if isinstance(r, Arr) and isinstance(s, Arr):
            self._buf(it, 'allreduce', op, s, r, n)

    def _buf(self, it, nm, op, s, r, n):
        q = it.new_arr(s.cshape, s.dims, s.dtype)
        q.store.cells = [v if isinstance(v, Top) else to_expr(gather(it, nm, op, v)) for v in it.arr_get(s)]
        it.arr_set(r, q, n)

    def m_Bcast(self, it, a, k, n):
        self._ev(it, 'Bcast', a, k, n)
        if it.rank != 0 and a:
            it.havoc(a[0])

    def m_Abort(self, it, a, k, n):
        raise AbsRaise('SystemExit', 'Abort', n)

    def m_Split(self, it, a, k, n):
        self._ev(it, 'Split', a, k, n)
        return COMM

    def m_Dup(self, it, a, k, n):
        return COMM


def gather(it, nm, op, v):
    name = op.q.split('.')[-1] if isinstance(op, Ext) else '?'
    e = to_expr(v)
    if e is None:
        return Top('%s result' % nm)
    return X.func('mpi_' + name, e, dep=e.dep(), flags=tuple(f for f in ('real',) if X.is_real(e)))


def uniform_copy(it, v):
    if isinstance(v, Arr):
        return it.copy_arr(v)
    return v


COMM = Comm()


# --------------------------------------------------------------- argparse
class ArgParser(MObj):
    """argparse.ArgumentParser: options, set_defaults, parents, subparsers and
    parsing of constant argument lists follow the semantics of CPython's
    argparse (a subparser's namespace overrides its parent's)."""
    CLS = 'ArgParser'

    def __init__(self, kw):
        MObj.__init__(self)
        self.actions = []            # dicts, shared with parents' as in argparse
        self.defaults = ADict()
        self.subs = None
        self.subdest = None
        self.subaction = None
        self.kw = kw
        for p in kw.get('parents', []) or []:
            self.actions.extend(p.actions)
            self.defaults.update(p.defaults)

    @property
    def options(self):
        """dest -> first declaration (argparse initialises from the first)."""
        out = {}
        for a in self.actions:
            out.setdefault(a['dest'], a)
        return out

    def m_add_argument(self, it, a, k, n):
        names = [x for x in a if isinstance(x, str)]
        for x in names:
            for o in self.actions:
                if x.startswith('-') and x in o['flags']:
                    raise AbsRaise('ArgumentError', 'conflicting option string %s' % x, n)
        dest = k.get('dest')
        if dest is None:
            longn = [x for x in names if x.startswith('--')]
            dest = (longn[0][2:] if longn else names[0].lstrip('-')).replace('-', '_')
        d = ADict(k)
        d['dest'] = dest
        d['flags'] = names
        d['loc'] = it.loc(n)
        if k.get('action') in ('store_true', 'store_false') and 'default' not in d:
            d['default'] = k['action'] == 'store_false'
        d.setdefault('default', None)
        if dest in self.defaults and d['default'] is None:
            d['default'] = self.defaults[dest]
        self.actions.append(d)
        return None

    def m_set_defaults(self, it, a, k, n):
        self.defaults.update(k)
        for o in self.actions:
            if o['dest'] in k:
                o['default'] = k[o['dest']]
        it.event('set_defaults', (self, dict(k)), n)
        return None

    def m_add_subparsers(self, it, a, k, n):
        self.subs = ADict()
        self.subdest = k.get('dest')
        self.subaction = SubParsers(self)
        return self.subaction

    def m_add_argument_group(self, it, a, k, n):
        return self

    m_add_mutually_exclusive_group = m_add_argument_group

    def _convert(self, it, o, v, n):
        if not isinstance(v, str):
            return v
        t = o.get('type')
        if t is None:
            return v
        try:
            return it.call(t, [v], {}, n)
        except AbsRaise as e:
            raise AbsRaise('SystemExit', 'argument %s: invalid value %r' % (o['flags'], v), n)

    def _check(self, it, o, v, n):
        ch = o.get('choices')
        if ch is not None and not it.truth(it.contains(ch, v, n)):
            raise AbsRaise('SystemExit', 'argument %s: invalid choice %r' % (o['flags'], v), n)

    def _parse(self, it, argv, n):
        ns = Obj('Namespace')
        for o in self.actions:
            if o['dest'] not in ns.attrs and o.get('action') != 'help':
                ns.attrs[o['dest']] = o['default']
        if self.subs is not None and self.subdest is not None:
            ns.attrs.setdefault(self.subdest, self.defaults.get(self.subdest))
        for d, v in self.defaults.items():
            ns.attrs.setdefault(d, v)
        seen = set()
        i = 0
        while i < len(argv):
            tok = argv[i]
            i += 1
            if not isinstance(tok, str):
                raise AnalysisError('unknown command line token %r' % (tok,))
            if tok.startswith('--'):
                val = None
                if '=' in tok:
                    tok, val = tok.split('=', 1)
                o = next((q for q in self.actions if tok in q['flags']), None)
                if o is None:
                    raise AbsRaise('SystemExit', 'unrecognized arguments: %s' % tok, n)
                act = o.get('action')
                seen.add(o['dest'])
                if act in ('store_true', 'store_false'):
                    ns.attrs[o['dest']] = act == 'store_true'
                    continue
                nargs = o.get('nargs')
                if isinstance(nargs, int):
                    raw = argv[i:i+nargs]
                    i += nargs
                    if len(raw) < nargs:
                        raise AbsRaise('SystemExit', 'argument %s: expected %d arguments' % (tok, nargs), n)
                    v = AList([self._convert(it, o, x, n) for x in raw])
                    for x in v:
                        self._check(it, o, x, n)
                elif nargs is None:
                    if val is None:
                        if i >= len(argv):
                            raise AbsRaise('SystemExit', 'argument %s: expected one argument' % tok, n)
                        val = argv[i]
                        i += 1
                    v = self._convert(it, o, val, n)
                    self._check(it, o, v, n)
                else:
                    raise AnalysisError('nargs %r' % (nargs,))
                if act is None or act == 'store':
                    ns.attrs[o['dest']] = v
                elif isinstance(act, ClassObj):
                    ob = Obj(act, dest=o['dest'])
                    it.call(it.get_attr(ob, '__call__', n), [self, ns, v, tok], {}, n)
                else:
                    raise AnalysisError('argparse action %r' % (act,))
                continue
            if self.subs is None:
                raise AbsRaise('SystemExit', 'unrecognized arguments: %s' % tok, n)
            if tok not in self.subs:
                raise AbsRaise('SystemExit', 'invalid choice: %s' % tok, n)
            if self.subdest is not None:
                ns.attrs[self.subdest] = tok
            sub = self.subs[tok]._parse(it, argv[i:], n)
            for q, v in sub.attrs.items():
                ns.attrs[q] = v
            break
        for o in self.actions:
            # string defaults of options not given are converted
            if o['dest'] not in seen and isinstance(o['default'], str) and ns.attrs.get(o['dest']) is o['default']:
                ns.attrs[o['dest']] = self._convert(it, o, o['default'], n)
        return ns

    def m_parse_args(self, it, a, k, n):
        argv = a[0] if a else k.get('args')
        sel = it.config.get('argv', {})
        if argv is None:
            argv = it.config.get('argv_list')
        if argv is None:
            argv = [sel[self.subdest]] if self.subdest in sel else []
        if not isinstance(argv, (list, tuple)):
            return it.top('parse_args of unknown arguments', n)
        ns = self._parse(it, list(argv), n)
        it.event('parse_args', (self, ns, list(a)), n)
        return ns

    def m_parse_known_args(self, it, a, k, n):
        return (self.m_parse_args(it, a, k, n), AList())

    def m_get_default(self, it, a, k, n):
        for o in self.actions:
            if o['dest'] == a[0] and o['default'] is not None:
                return o['default']
        return self.defaults.get(a[0])

    def p_choices(self, it, n):
        return it.top('parser choices', n)

    def p__actions(self, it, n):
        out = AList()
        for o in self.actions:
            out.append(MObj(dest=o['dest'], **{q: v for q, v in o.items() if q in ('default', 'choices', 'type', 'help')}))
        if self.subaction is not None:
            out.append(self.subaction)
        return out

    def p__subparsers(self, it, n):
        return None if self.subs is None else MObj(_group_actions=AList([self.subaction]))


class SubParsers(MObj):
    CLS = 'SubParsers'

    def __init__(self, p):
        MObj.__init__(self)
        self.parent = p
        self.attrs['choices'] = p.subs
        self.attrs['dest'] = p.subdest
        self.attrs['default'] = None

    def m_add_parser(self, it, a, k, n):
        sp = ArgParser({})
        self.parent.subs[a[0]] = sp
        sp.loc = it.loc(n)
        return sp


@extf('ArgumentParser')
def ap(it, a, k, n):
    return ArgParser(k)


# --------------------------------------------------------------- misc external
@extf('Profile')
def ext_profile(it, a, k, n):
    return Profile()


class Profile(MObj):
    CLS = 'Profile'

    def m_enable(self, it, a, k, n):
        return None

    m_disable = m_enable
    m_clear = m_enable
    m_create_stats = m_enable

    def m_getstats(self, it, a, k, n):
        return LocalTop('profile')

    def p_stats(self, it, n):
        return LocalTop('profile')

    def m_get_stats_profile(self, it, a, k, n):
        return LocalTop('profile')


class LocalTop(Top):
    """Unknown value that differs between ranks."""
    flags = ('local',)


@extf('time', 'perf_counter', 'process_time')
def ext_time(it, a, k, n):
    return X.sym(it.fresh('time'), (), ('real', 'local'))


@extf('listdir')
def ext_listdir(it, a, k, n):
    it.event('fs', ('listdir', [fsname(x) for x in a]), n)
    t = LocalTop('directory listing')
    t.listing = True
    return t


@extf('exists', 'isfile', 'isdir')
def ext_exists(it, a, k, n):
    it.event('fs', ('exists', a), n)
    if a and isinstance(fsname(a[0]), str):
        return AbsBool(X.sym('file:' + fsname(a[0]), (), ('idem', 'real', 'local')))
    return AbsBool(X.sym(it.fresh('exists'), (), ('real', 'idem', 'local')))


@extf('getcwd', 'getcwdu')
def ext_getcwd(it, a, k, n):
    return CWD


CWD = '<cwd>'


def fsname(x):
    """Name relative to the working directory."""
    if isinstance(x, PathM):
        x = x.s
    if not isinstance(x, str):
        return x
    while x.startswith((CWD + '/', './')):
        x = x[len(CWD)+1:] if x.startswith(CWD) else x[2:]
    return x


@extf('remove', 'unlink')
def ext_remove(it, a, k, n):
    it.event('fs', ('remove', [fsname(x) for x in a]), n)
    return None


@extf('abspath', 'realpath')
def ext_abspath(it, a, k, n):
    if isinstance(a[0], str) and not a[0].startswith(('/', CWD)):
        return CWD + '/' + fsname(a[0])
    return a[0]


class PathM(MObj):
    CLS = 'Path'

    def __init__(self, s):
        MObj.__init__(self)
        self.s = s
        self.attrs['name'] = s.split('/')[-1]

    def m_exists(self, it, a, k, n):
        return ext_exists(it, [self.s], {}, n)

    m_is_file = m_exists

    def m_unlink(self, it, a, k, n):
        return ext_remove(it, [self.s], {}, n)

    def m_joinpath(self, it, a, k, n):
        return PathM('/'.join([self.s] + [x.s if isinstance(x, PathM) else x for x in a]))

    def m_iterdir(self, it, a, k, n):
        return ext_listdir(it, [self.s], {}, n)


@extf('Path', 'PosixPath')
def ext_path(it, a, k, n):
    if all(isinstance(x, (str, PathM)) for x in a):
        return PathM('/'.join(x.s if isinstance(x, PathM) else x for x in a) or '.')
    return it.top('Path', n)


@extf('cwd')
def ext_cwd(it, a, k, n):
    return PathM(CWD)


@extf('exit', '_exit')
def ext_exit(it, a, k, n):
    it.event('exit', list(a), n)
    raise AbsRaise('SystemExit', 'exit', n)


@extf('wraps')
def ext_wraps(it, a, k, n):
    src = a[0] if a else None

    def deco(it2, a2, k2, n2):
        f = a2[0]
        if isinstance(f, PyFunc):
            f.wrapped = src
            if isinstance(src, PyFunc):
                f.attrs['__wrapped__'] = src
                f.attrs['__name__'] = src.attrs.get('__name__', src.name)
        return f
    return Builtin('wraps', deco)


@extf('import_module')
def ext_import_module(it, a, k, n):
    if not isinstance(a[0], str):
        return it.top('import_module of unknown', n)
    return it.import_module(a[0])


@extf('defaultdict')
def ext_defaultdict(it, a, k, n):
    d = ADict(a[1]) if len(a) > 1 else ADict()
    d.default = a[0] if a else None
    return d


@extf('OrderedDict')
def ext_od(it, a, k, n):
    return bi_dict(it, a, k, n)


@extf('deepcopy')
def ext_copy(it, a, k, n):
    v = a[0]
    if isinstance(v, Arr):
        return it.copy_arr(v)
    if isinstance(v, list):
        return AList([ext_copy(it, [x], {}, n) for x in v])
    if isinstance(v, dict):
        return ADict({q: ext_copy(it, [x], {}, n) for q, x in v.items()})
    return v


@extf('reduce')
def ext_freduce(it, a, k, n):
    f, seq = a[0], it.lazily(a[1], n)
    if seq is None:
        return it.top('reduce', n)
    acc = a[2] if len(a) > 2 else next(seq)
    for x in seq:
        acc = it.call(f, [acc, x], {}, n)
    return acc


@extf('partial')
def ext_partial(it, a, k, n):
    f = a[0]
    return Builtin('partial', lambda it2, a2, k2, n2: it2.call(f, list(a[1:]) + list(a2), dict(k, **k2), n2))


@extf('glob', 'iglob')
def ext_glob(it, a, k, n):
    """Existing names that match: one name without wild cards, or unknown."""
    from .interp import CondList
    it.event('fs', ('listdir', []), n)
    if isinstance(a[0], str) and not set(a[0]) & set('*?['):
        return CondList([(X.sym('file:' + fsname(a[0]), (), ('idem', 'real', 'local')), a[0])])
    return LocalTop('glob')


@extf('join')
def ext_join(it, a, k, n):
    from .interp import StrTop
    if all(isinstance(x, str) for x in a):
        return '/'.join(a)
    return StrTop()


@extf('jit', 'njit', 'vectorize', 'guvectorize', 'profile', 'boundscheck', 'wraparound', 'cdivision', 'lru_cache')
def ext_jit(it, a, k, n):
    if len(a) == 1 and isinstance(a[0], PyFunc) and not k:
        a[0].attrs['jit'] = True
        return a[0]

    def deco(it2, a2, k2, n2):
        if isinstance(a2[0], PyFunc):
            a2[0].attrs['jit'] = True
        return a2[0]
    return Builtin('jit', deco)


@extf('prange')
def ext_prange(it, a, k, n):
    return bi_range(it, a, k, n)


@extf('aligned')
def ext_aligned(it, a, k, n):
    sh = a[0] if a else k.get('shape')
    fill = k.get('fill')
    dt = dtype_of(k.get('dtype')) or 'f8'
    r = make(it, sh, dt, n, X.ZERO)
    if fill is None and isinstance(r, Arr):
        stale_fill(it, r, 'aligned')
    elif isinstance(r, Arr):
        it.arr_set(r, fill, n)
    return r


@extf('aligned_like')
def ext_aligned_like(it, a, k, n):
    return like(None if k.get('fill') is None else to_expr(k['fill']))(it, a[:1], {}, n)


@extf('dctn', 'fftn', 'rfftn', 'irfftn', 'ifftn')
def ext_plan(it, a, k, n):
    def f(it2, a2, k2, n2):
        if len(a2) > 1 and isinstance(a2[1], Arr):
            it2.arr_set(a2[1], Top('transform plan'), n2)
            return a2[1]
        return Top('transform plan')
    return Builtin('plan', f)


@extf('loads')
def ext_loads(it, a, k, n):
    import json

    def conv(x):
        if isinstance(x, dict):
            return ADict({q: conv(v) for q, v in x.items()})
        if isinstance(x, list):
            return AList([conv(v) for v in x])
        return Fraction(str(x)) if isinstance(x, float) else x
    if a and isinstance(a[0], str) and len(a) == 1 and not k:
        try:
            return conv(json.loads(a[0]))
        except ValueError as e:
            raise AbsRaise('JSONDecodeError', str(e), n)
    return Top('json')


@extf('NotImplementedError', 'AssertionError', 'RuntimeError')
def ext_exc(it, a, k, n):
    return Obj('Exception', msg=str(a[0]) if a and isinstance(a[0], str) else '')


PURE_EXT = {'check_output', 'getpid', 'getuid', 'warn', 'Stats', 'gethostname', 'StringIO', 'basename', 'dirname',
            'sleep'}


class FlatView(object):
    """a.flat: only the first and the last element can be named"""
    def __init__(self, o):
        self.o = o

    def getitem(self, it, k, node):
        if isinstance(k, Expr):
            k = simp(k)
        if not self.o.dims and isinstance(k, int):
            v = it.arr_get(self.o)
            if not -len(v) <= k < len(v):
                raise AbsRaise('IndexError', 'index %d is out of bounds' % k, node)
            return v[k]
        if isinstance(k, int) and k in (0, -1):
            return it.get_item(self.o, (k,)*len(self.o.shape), node)
        return it.top('element of a flattened array', node)


class IndexMaker(object):
    """numpy.s_ and numpy.index_exp"""
    def __init__(self, tup):
        self.tup = tup

    def getitem(self, it, k, node):
        return (k,) if self.tup and not isinstance(k, tuple) else k


def ext_attr(it, o, name, node):
    q = o.q + '.' + name
    ov = getattr(it, 'overrides_ext', {})
    if q in ov:
        return ov[q]
    if q in ('numpy.pi', 'math.pi', 'scipy.pi', 'sympy.pi'):
        return PI
    if q.endswith('newaxis'):
        return None
    if q in ('numpy.s_', 'numpy.index_exp'):
        return IndexMaker(q.endswith('p'))
    if name in ('COMM_WORLD', 'COMM_SELF'):
        return COMM
    if o.q == 'numpy' and name in ('inf', 'nan'):
        return X.sym(name)
    if name == '__name__':
        return o.q.split('.')[-1]
    if name == 'char' and dtype_of(o):
        return {'f8': 'd', 'f4': 'f', 'c16': 'D', 'c8': 'F', 'i8': 'l', 'b': '?'}[dtype_of(o)]
    if name == 'type' and dtype_of(o):
        return o
    if name == 'itemsize' and dtype_of(o):
        return {'f8': 8, 'f4': 4, 'c16': 16, 'c8': 8, 'i8': 8, 'b': 1}[dtype_of(o)]
    if name == 'name' and dtype_of(o):
        return DTX[dtype_of(o)]
    if o.q == 'sys' and name == 'argv':
        return AList([Top('argv')])
    return Ext(q)


def call_ext(it, f, args, kwargs, node):
    q = f.q
    last = q.split('.')[-1]
    if q.startswith('numpy.') or q.startswith('scipy.numpy'):
        sub = q[6:]
        h = NPF.get(sub) or NPF.get(last)
        if h is not None:
            return h(it, args, kwargs, node)
    else:
        if q.startswith(('math.', 'cmath.')):
            h = NPF.get({'fabs': 'abs', 'pow': 'power'}.get(last, last))
            if h is not None:
                return h(it, args, kwargs, node)
        if q.startswith('itertools.') and q[10:] in ITERTOOLS:
            return ITERTOOLS[q[10:]](it, args, kwargs, node)
        if q.startswith('operator.'):
            r = call_operator(it, q[9:], args, kwargs, node)
            if r is not NotImplemented:
                return r
        if q == 'dataclasses.field':
            return ext_dcfield(it, args, kwargs, node)
        if q == 'copy.copy' and args:
            from .npmore import ext_shallow
            return ext_shallow(it, args, kwargs, node)
        h = EXT.get(last)
        if h is not None:
            return h(it, args, kwargs, node)
    if q.startswith('builtins.') and last.endswith(('Error', 'Exception', 'Exit', 'Warning')):
        return Obj(last, msg=str(args[0]) if args and isinstance(args[0], str) else '', args=tuple(args))
    if last in PURE_EXT:
        return LocalTop(q)
    it.event('unknown-call', q, node)
    for a in list(args) + list(kwargs.values()):
        it.havoc(a)
    return it.top('external call %s' % q, node)


# -------------------------------------------------------------- interp hooks
DUNDER = {'Add': 'add', 'Sub': 'sub', 'Mult': 'mul', 'Div': 'truediv', 'Pow': 'pow', 'Mod': 'mod', 'FloorDiv': 'floordiv',
          'MatMult': 'matmul', 'BitAnd': 'and', 'BitOr': 'or', 'BitXor': 'xor'}


def special_binop(it, op, a, b, node):
    if op == 'Div' and isinstance(a, PathM):
        return a.m_joinpath(it, [b], {}, node)
    for o, p, pre in ((a, b, '__'), (b, a, '__r')):
        if isinstance(o, Obj) and isinstance(o.cls, ClassObj) and op in DUNDER:
            m = o.cls.lookup(pre + DUNDER[op] + '__')
            if m is not None:
                return it.call(Bound(m[0], o), [p], {}, node)
    if op == 'MatMult' and (isinstance(a, Arr) or isinstance(b, Arr)):
        return np_dot(it, [a, b], {}, node)
    fa, fb = isinstance(a, Form), isinstance(b, Form)
    if fa or fb:
        if fa and not fb and isinstance(b, Arr):
            b2 = as_form(it, b, node)
            if b2 is not None and op in ('Add', 'Sub'):
                b, fb = b2, True
        if fb and not fa and isinstance(a, Arr):
            a2 = as_form(it, a, node)
            if a2 is not None and op in ('Add', 'Sub'):
                a, fa = a2, True
        if fa and fb:
            if op == 'Add':
                return a.plus(b)
            if op == 'Sub':
                return a.plus(b, -1)
            return it.top('product of forms', node)
        f, s = (a, b) if fa else (b, a)
        e = to_expr(s)
        if e is None and isinstance(s, Arr) and s.size() == 1:
            e = it.arr_get(s)[0]
        if e is None or isinstance(e, Top):
            return it.top('form coefficient', node)
        if op == 'Mult':
            return f.scaled(e)
        if op == 'Div' and fa:
            return f.scaled(X.inverse(e))
        return it.top('form operator', node)
    if isinstance(a, Bilinear) or isinstance(b, Bilinear):
        la = [a] if isinstance(a, Bilinear) else (list(a) if isinstance(a, list) else None)
        lb = [b] if isinstance(b, Bilinear) else (list(b) if isinstance(b, list) else None)
        if op == 'Add' and la is not None and lb is not None:
            return AList(la + lb)
        e = to_expr(b if isinstance(a, Bilinear) else a)
        m = a if isinstance(a, Bilinear) else b
        if op == 'Mult' and e is not None:
            return Bilinear({q: v*e for q, v in m.terms.items()})
        return it.top('operator on bilinear form', node)
    if isinstance(a, Mat) or isinstance(b, Mat):
        m, s = (a, b) if isinstance(a, Mat) else (b, a)
        e = to_expr(s)
        if op == 'Mult' and e is not None:
            return Mat(m.key, m.scale*e)
        return it.top('operator on matrix', node)
    if isinstance(a, Strides) or isinstance(b, Strides):
        return it.top('strides arithmetic', node)
    if isinstance(a, StrideOf) and op in ('Div', 'FloorDiv'):
        return a
    return NotImplemented


class StrideOf(MObj):
    CLS = 'StrideOf'

    def __init__(self, arr, axis):
        MObj.__init__(self)
        self.arr, self.axis = arr, axis


def index_space(space, cshape, pick):
    if isinstance(space, CSpace):
        if not pick:
            return space
        kind, p = pick[0]
        flat = space.flat
        if len(cshape) != 1 or cshape[0] != len(flat):
            return space if len(cshape) == 0 else None
        if kind == 'int':
            return flat[p]
        if kind == 'list':
            if p == list(range(len(flat))):
                return space
            return CSpace([flat[i] for i in p], True) if p else None
        return None
    return space


def arr_getitem(it, o, k, node):
    """shenfun semantics of integer indexing of nested composite functions."""
    sp = o.space
    if isinstance(sp, CSpace) and sp.nested() and o.kind and isinstance(k, int) and not isinstance(k, bool) \
            and o.cshape == (sp.ncomp(),):
        n = len(sp.spaces)
        if not -n <= k < n:
            raise AbsRaise('IndexError', 'index %d of a composite function with %d parts' % (k, n), node)
        k %= n
        off = sum(s.ncomp() for s in sp.spaces[:k])
        s = sp.spaces[k]
        if isinstance(s, CSpace):
            v = it.index_arr(o, slice(off, off + s.ncomp()), node)
        else:
            v = it.index_arr(o, off, node)
        v.space = s
        return v
    return NotImplemented


def iter_space(it, arr, node):
    sp = arr.space
    if isinstance(sp, CSpace) and sp.nested() and arr.kind and arr.cshape == (sp.ncomp(),):
        return [arr_getitem(it, arr, i, node) for i in range(len(sp.spaces))]
    return None


def iterate(it, o, node):
    if isinstance(o, Form) and len(o.shape) == 1:
        sp = o.space
        if isinstance(sp, CSpace) and sp.nested() and len(o.comps) == sp.ncomp():
            return [form_item(o, i) for i in range(len(sp.spaces))]
        return [form_item(o, i) for i in range(o.shape[0])]
    if isinstance(o, CSpace):
        return list(o.spaces)
    if isinstance(o, TPS):
        return list(o.bases)
    return None


def form_item(o, i):
    sp = o.space
    if isinstance(sp, CSpace) and sp.nested() and len(o.comps) == sp.ncomp():
        i %= len(sp.spaces)
        off = sum(s.ncomp() for s in sp.spaces[:i])
        s = sp.spaces[i]
        m = s.ncomp()
        return Form(o.kind, o.comps[off:off+m], (m,) if isinstance(s, CSpace) else (), sp if o.kind == 'test' else sp)
    return Form(o.kind, [o.comps[i]], (), o.space)


def get_item(it, o, k, node):
    if isinstance(o, (IndexMaker, FlatView)):
        return o.getitem(it, k, node)
    if isinstance(o, mapping.PObj):
        return mapping.get_item(it, o, k, node)
    if isinstance(o, WorkArrays):
        return o.get(it, k, node)
    if isinstance(o, (Mat, Diag, H5Attrs)):
        return o.item(it, k, node)
    if isinstance(o, Form) and isinstance(k, int):
        return form_item(o, k)
    if isinstance(o, CSpace) and isinstance(k, int):
        return o.spaces[k]
    if isinstance(o, TPS) and isinstance(k, int):
        return o.bases[k]
    if isinstance(o, Strides) and isinstance(k, int):
        return StrideOf(o.arr, k)
    if isinstance(o, Obj) and o.cls in ('Params', 'AttrDict'):
        if k in o.attrs:
            return o.attrs[k]
        raise AbsRaise('KeyError', repr(k), node)
    if isinstance(o, CPtr):
        return o.read(it, k, node)
    if isinstance(o, Ext):
        return Ext(o.q + '[]')
    if isinstance(o, Expr) and isinstance(k, tuple) and k == ():
        return o
    return NotImplemented


def set_item(it, o, k, v, node):
    if isinstance(o, mapping.PObj):
        mapping.set_item(it, o, k, v, node)
        return None
    if isinstance(o, H5Attrs):
        return o.setitem(it, k, v, node)
    if isinstance(o, Obj) and o.cls in ('Params', 'AttrDict'):
        o.attrs[k] = v
        return None
    if isinstance(o, CPtr):
        o.write(it, k, v, node)
        return None
    if isinstance(o, WorkArrays) and isinstance(k, tuple) and len(k) == 3 and isinstance(v, Arr):
        arr, idx, fill = k
        o.data[(tuple(str(s) for s in arr.shape), arr.dtype, idx)] = v
        return None
    return NotImplemented


class CPtr(MObj):
    """C pointer &a[i, j, k]: recorded, never dereferenced symbolically."""
    CLS = 'CPtr'

    def __init__(self, arr, index):
        MObj.__init__(self)
        self.arr, self.index = arr, index

    def read(self, it, k, node):
        return it.top('pointer read', node)

    def write(self, it, k, v, node):
        it.havoc(self.arr)


DICTM = ('get', 'keys', 'values', 'items', 'update', 'pop', 'setdefault', 'copy', 'clear', '__contains__', 'popitem')


def dict_method(it, d, name, node):
    def f(it2, a, k, n):
        if name == 'get':
            return d.get(a[0], a[1] if len(a) > 1 else None)
        if name == 'keys':
            return AList(d.keys())
        if name == 'values':
            return AList(d.values())
        if name == 'items':
            return AList(d.items())
        if name == 'update':
            if a:
                items = it.dict_items(a[0])
                if items is None:
                    seq = it.iterate(a[0], n)
                    items = dict(seq) if seq is not None else {}
                    if seq is None:
                        it.note('dict.update with unknown', n)
                d.update(items)
            d.update(k)
            return None
        if name == 'pop':
            if a[0] in d:
                return d.pop(a[0])
            if len(a) > 1:
                return a[1]
            raise AbsRaise('KeyError', repr(a[0]), n)
        if name == 'setdefault':
            return d.setdefault(a[0], a[1] if len(a) > 1 else None)
        if name == 'copy':
            r = ADict(d)
            if getattr(d, 'default', None) is not None:
                r.default = d.default
            return r
        if name == 'clear':
            d.clear()
            return None
        if name == '__contains__':
            return a[0] in d
        return it.top('dict method', n)
    return Builtin(name, f)


LISTM = ('append', 'extend', 'insert', 'pop', 'remove', 'index', 'count', 'sort', 'reverse', 'copy', 'clear', 'push_back',
         'resize')


def list_method(it, l, name, node):
    def f(it2, a, k, n):
        if name in ('append', 'push_back'):
            l.append(a[0])
        elif name == 'resize':
            while len(l) < a[0]:
                l.append(0)
        elif name == 'extend':
            l.extend(it.iterate(a[0], n) or [])
        elif name == 'insert':
            l.insert(a[0], a[1])
        elif name == 'pop':
            i = a[0] if a else -1
            if not isinstance(i, int):
                return it.top('list.pop', n)
            if not l:
                raise AbsRaise('IndexError', 'pop from empty list', n)
            return l.pop(i)
        elif name == 'remove':
            for i, x in enumerate(l):
                if x is a[0] or (not isinstance(x, (Arr, MObj)) and x == a[0]):
                    del l[i]
                    return None
            raise AbsRaise('ValueError', 'not in list', n)
        elif name == 'index':
            for i, x in enumerate(l):
                if x is a[0] or (not isinstance(x, (Arr, MObj)) and x == a[0]):
                    return i
            raise AbsRaise('ValueError', 'not in list', n)
        elif name == 'count':
            return sum(1 for x in l if x is a[0] or x == a[0])
        elif name == 'reverse':
            l.reverse()
        elif name == 'copy':
            return AList(l)
        elif name == 'clear':
            del l[:]
        elif name == 'sort':
            try:
                l.sort()
            except TypeError:
                it.note('list.sort of abstract values', n)
        return None
    return Builtin(name, f)


def str_method(it, s, name, node):
    from .interp import StrTop

    def f(it2, a, k, n):
        if name == 'format':
            def conc(x):
                return isinstance(x, (str, int)) and not isinstance(x, bool)
            if all(conc(x) for x in a) and all(conc(x) for x in k.values()):
                try:
                    return s.format(*a, **k)
                except Exception:
                    return StrTop()
            if len(a) == 1 and not k and s[:1] == '{' and s[-1:] == '}' and s.count('{') == 1 and '!' not in s:
                return it2.text_of(a[0], s[1:-1].lstrip('0'))
            return StrTop()
        if name == 'join':
            seq = it.iterate(a[0], n)
            if seq is not None and all(isinstance(x, str) for x in seq):
                return s.join(seq)
            return StrTop()
        try:
            r = getattr(s, name)(*a, **k)
        except Exception:
            return it.top('string method', n)
        if isinstance(r, list):
            return AList(r)
        return r
    return Builtin(name, f)


def get_attr(it, o, name, node):
    if isinstance(o, mapping.PObj):
        return mapping.get_attr(it, o, name, node)
    if isinstance(o, Builtin) and o.name in ('dict', 'object') and (
            name in mapping.METHS or name.startswith('__') and name not in ('__name__',)):
        return mapping.base_method(name)
    if isinstance(o, Super) and isinstance(o.slf, mapping.PObj):
        for b in (o.c.bases if o.c is not None else ()):
            m = b.lookup(name) if isinstance(b, ClassObj) else None
            if m is not None:
                return it.bind(m[0], o.slf, m[1], node)
        g = mapping.base_method(name)
        return Builtin(name, lambda it2, a, k, n: g.f(it2, [o.slf] + list(a), k, n))
    if isinstance(o, Arr):
        return arr_attr(it, o, name, node)
    if isinstance(o, LazyIter):
        return lazy_method(it, o, name, node)
    if isinstance(o, NTuple):
        if name in o.fields:
            return o[o.fields.index(name)]
        if name == '_asdict':
            return Builtin(name, lambda it2, a, k, n: ADict(zip(o.fields, o)))
        if name == '_replace':
            return Builtin(name, lambda it2, a, k, n: NTuple(o.name, o.fields, [], [], dict(zip(o.fields, o), **k), n))
    if isinstance(o, MObj):
        if name in o.attrs:
            return o.attrs[name]
        m = getattr(o, 'm_' + name, None)
        if m is not None:
            return Builtin(name, lambda it2, a, k, n: m(it2, a, k, n))
        p = getattr(o, 'p_' + name, None)
        if p is not None:
            return p(it, node)
        if name == '__class__':
            return Ext('model.' + o.CLS)
        if name in ('__name__',):
            return o.CLS
        return it.top('attribute %s of %s' % (name, o.CLS), node)
    if isinstance(o, Obj) and o.cls in ('Params', 'AttrDict', 'Namespace'):
        if name in o.attrs:
            return o.attrs[name]
        if name == '__dict__':
            return o.attrs
        if o.cls == 'Namespace':
            raise AbsRaise('AttributeError', name, node)
        if name in DICTM:
            return dict_method(it, o.attrs, name, node)
        if o.cls == 'Params':
            if name == 'dx':
                return it.binop('Div', o.attrs['L'], o.attrs['N'], node)
            raise AbsRaise('KeyError', name, node)
        raise AbsRaise('AttributeError', "'AttributeDict' object has no attribute '%s'" % name, node)
    if isinstance(o, dict):
        if name in DICTM:
            return dict_method(it, o, name, node)
        raise AbsRaise('AttributeError', "'dict' object has no attribute '%s'" % name, node)
    if isinstance(o, list):
        if name in LISTM:
            return list_method(it, o, name, node)
        raise AbsRaise('AttributeError', "'list' object has no attribute '%s'" % name, node)
    if isinstance(o, tuple):
        if name in ('index', 'count'):
            return list_method(it, list(o), name, node)
        raise AbsRaise('AttributeError', "'tuple' object has no attribute '%s'" % name, node)
    if isinstance(o, str):
        if hasattr('', name):
            return str_method(it, o, name, node)
        raise AbsRaise('AttributeError', "'str' object has no attribute '%s'" % name, node)
    if isinstance(o, (set, frozenset)):
        def f(it2, a, k, n):
            try:
                return getattr(o, name)(*a)
            except Exception:
                return it.top('set method', n)
        return Builtin(name, f)
    if isinstance(o, slice):
        return {'start': o.start, 'stop': o.stop, 'step': o.step}.get(name)
    if isinstance(o, (Expr, int, Fraction)) and not isinstance(o, bool):
        e = lift(o)
        if name == 'real':
            return simp(X.real(e))
        if name == 'imag':
            return simp(X.imag(e))
        if name in ('conjugate', 'conj'):
            return Builtin(name, lambda it2, a, k, n: simp(X.conj(e)))
        if name == 'shape':
            return ()
        if name == 'dtype':
            return ext_dtype('c16' if X.I_ATOM in e.atoms() else 'f8')
        if name in ('astype', 'item'):
            return Builtin(name, lambda it2, a, k, n: o)
        if name == 'ndim':
            return 0
        if name in ('sum', 'max', 'min', 'copy'):
            return Builtin(name, lambda it2, a, k, n: o)
        return it.top('attribute %s of number' % name, node)
    if isinstance(o, slice):
        return getattr(o, name)
    if isinstance(o, PyFunc) and name in ('py_func',):
        return o
    return NotImplemented


def set_attr(it, o, name, v, node):
    if isinstance(o, mapping.PObj):
        mapping.set_attr(it, o, name, v, node)
        return None
    if isinstance(o, Obj) and o.cls in ('Params', 'AttrDict', 'Namespace') or isinstance(o, MObj):
        o.attrs[name] = v
        return None
    if isinstance(o, Arr) and name == 'flags':
        return None
    return NotImplemented


def call_obj(it, f, args, kwargs, node):
    if isinstance(f, (LinSolver, TDMASolver)):
        return f.call(it, args, kwargs, node)
    if isinstance(f, MObj):
        return it.top('call of %s' % f.CLS, node)
    return NotImplemented


def instantiate(it, cls, args, kwargs, node):
    if it.config.get('interpret_params'):
        if mapping.is_mapping_class(cls):
            o = mapping.PObj(cls)
            f = mapping.user(o, '__init__')
            if f is not None:
                it.call(f, [o] + list(args), kwargs, node)
            else:
                it.call(mapping.base_method('__init__'), [o] + list(args), kwargs, node)
            return o
        return NotImplemented
    names = set()

    def walk(c):
        names.add(c.name)
        for b in c.bases:
            if isinstance(b, ClassObj):
                walk(b)
            elif isinstance(b, Ext):
                names.add(b.q)
            elif isinstance(b, Builtin):
                names.add(b.name)
    walk(cls)
    if 'dict' in names or 'collections.abc.MutableMapping' in names:
        if any('params' in x.lower() for x in names):
            o = Obj('Params')
        else:
            o = Obj('AttrDict')
        if args:
            items = it.dict_items(args[0])
            if items is None:
                it.note('mapping constructed from unknown', node)
            else:
                o.attrs.update(items)
        o.attrs.update(kwargs)
        return o
    return NotImplemented


def star_names(ext):
    return {}


# --------------------------------------------------------------- builtins
BI = {}


def bi(*names):
    def d(f):
        for n in names:
            BI[n] = f
        return f
    return d


@bi('len')
def bi_len(it, a, k, n):
    v = a[0]
    if isinstance(v, Arr):
        s = v.shape
        if not s:
            raise AbsRaise('TypeError', 'len() of unsized object', n)
        return simp(s[0]) if isinstance(s[0], Expr) else s[0]
    if isinstance(v, (list, tuple, dict, str, set, frozenset, range)):
        return len(v)
    if isinstance(v, Obj) and v.cls in ('Params', 'AttrDict'):
        return len(v.attrs)
    if hasattr(v, 'items_'):
        return sum((w for w, _ in v.items_), X.ZERO)
    if isinstance(v, Obj) and isinstance(v.cls, ClassObj) and v.cls.lookup('__len__'):
        return it.call(Bound(v.cls.lookup('__len__')[0], v), [], {}, n)
    if isinstance(v, CSpace):
        return len(v.spaces)
    if isinstance(v, TPS):
        return len(v.bases)
    if isinstance(v, (Expr, int, Fraction)) or v is None:
        raise AbsRaise('TypeError', 'object has no len()', n)
    return it.top('len', n)


@bi('range', 'xrange')
def bi_range(it, a, k, n):
    from .interp import SymRange
    vs = [simp(x) if isinstance(x, Expr) else x for x in a]
    vs = [int(x) if isinstance(x, (bool, Fraction)) else x for x in vs]
    if all(isinstance(x, int) for x in vs):
        return range(*vs)
    if any(not isinstance(x, (int, Expr)) for x in vs):
        return it.top('range', n)
    if len(vs) == 1:
        return SymRange(0, vs[0])
    if len(vs) == 2:
        return SymRange(vs[0], vs[1])
    return SymRange(vs[0], vs[1], vs[2])


def symlead(v):
    return isinstance(v, Arr) and not v.cshape and v.dims and not isinstance(simp(v.dims[0]) if isinstance(v.dims[0], Expr) else v.dims[0], int)


@bi('enumerate')
def bi_enumerate(it, a, k, n):
    from .interp import SymIter
    if symlead(a[0]):
        return SymIter(('i', a[0]), a[0].dims[0])
    seq = it.lazily(a[0], n)
    if seq is None:
        return it.top('enumerate', n)
    st = a[1] if len(a) > 1 else k.get('start', 0)
    return LazyIter((i+st, x) for i, x in enumerate(seq))


@bi('zip')
def bi_zip(it, a, k, n):
    from .interp import SymIter
    if a and all(symlead(x) for x in a):
        return SymIter(tuple(a), a[0].dims[0])
    seqs = [it.lazily(x, n) for x in a]
    if any(s is None for s in seqs):
        return it.top('zip', n)
    return LazyIter(zip(*seqs))


@bi('sum')
def bi_sum(it, a, k, n):
    v = a[0]
    st = a[1] if len(a) > 1 else k.get('start', 0)
    if isinstance(v, Arr) and not v.cshape and v.dims:
        return it.binop('Add', arr_sum(it, v, 0, n), st, n)
    seq = it.iterate(v, n)
    if seq is None:
        return it.top('sum', n)
    acc = st
    for x in seq:
        if isinstance(acc, int) and acc == 0 and isinstance(x, (Arr, Form, Bilinear)):
            acc = it.copy_arr(x) if isinstance(x, Arr) else x
        else:
            acc = it.binop('Add', acc, x, n)
    return acc


def _mm(name):
    def f(it, a, k, n):
        if len(a) == 1:
            if isinstance(a[0], Arr):
                return arr_sum(it, a[0], None, n, name)
            seq = it.iterate(a[0], n)
        else:
            seq = list(a)
        if seq is None:
            return it.top(name, n)
        if k.get('key') is not None:
            return it.top(name + ' with key', n)
        es = [to_expr(x) for x in seq]
        if any(e is None for e in es):
            if any(isinstance(x, Top) for x in seq):
                return Top(name)
            if all(isinstance(x, str) for x in seq):
                return max(seq) if name == 'max' else min(seq)
            return it.top(name, n)
        return simp(extremum(name, es))
    return f


BI['min'] = _mm('min')
BI['max'] = _mm('max')


@bi('abs')
def bi_abs(it, a, k, n):
    return NPF['abs'](it, a, {}, n)


@bi('pow')
def bi_pow(it, a, k, n):
    return it.binop('Pow', a[0], a[1], n)


@bi('divmod')
def bi_divmod(it, a, k, n):
    return (it.binop('FloorDiv', a[0], a[1], n), it.binop('Mod', a[0], a[1], n))


@bi('round')
def bi_round(it, a, k, n):
    e = to_expr(a[0])
    if e is None:
        return Top('round')
    c = X.const_value(e)
    if c is not None and len(a) == 1:
        return int(round(c))
    return X.func('round', e, pointwise=True)


@bi('int')
def bi_int(it, a, k, n):
    if not a:
        return 0
    v = a[0]
    if getattr(v, 'value', None) is not None and type(v).__name__ == 'StrTop':
        c = X.const_value(lift(v.value))
        if c is not None:
            raise AbsRaise('ValueError', 'invalid literal for int()', n)
        v = v.value
    if isinstance(v, str):
        try:
            return int(v)
        except ValueError:
            raise AbsRaise('ValueError', 'invalid literal for int()', n)
    e = to_expr(v)
    if isinstance(v, Arr) and v.size() == 1 and not v.dims:
        e = it.arr_get(v)[0]
    if e is None or isinstance(e, Top):
        return Top('int') if not isinstance(v, (list, dict, type(None))) else _raise_type(n)
    c = X.const_value(e)
    if c is not None:
        return int(c)
    if integral(e):
        return e
    return X.func('trunc', e, pointwise=True)


def integral(e):
    return all(getattr(q, 'denominator', 0) == 1 for q in e.t.values()) and all(
        x.kind == 'ind' or any(f in x.flags for f in ('dim', 'int', 'idem')) or
        x.kind == 'fun' and x.name.startswith('mpi_') and x.args and integral(x.args[0]) for x in e.atoms())


def _raise_type(n):
    raise AbsRaise('TypeError', 'int() argument', n)


@bi('float')
def bi_float(it, a, k, n):
    if not a:
        return 0
    v = a[0]
    if isinstance(v, str):
        try:
            return simp(lift(float(v)))
        except ValueError:
            raise AbsRaise('ValueError', 'could not convert string to float', n)
    if isinstance(v, Arr) and v.size() == 1 and not v.dims:
        return it.arr_get(v)[0]
    if isinstance(v, Arr):
        raise AbsRaise('TypeError', 'only length-1 arrays can be converted', n)
    e = to_expr(v)
    return simp(e) if e is not None else Top('float')


@bi('complex')
def bi_complex(it, a, k, n):
    es = [to_expr(x) for x in a]
    if any(e is None for e in es):
        return Top('complex')
    if not es:
        return 0
    return simp(es[0] + (X.IMAG*es[1] if len(es) > 1 else X.ZERO))


@bi('bool')
def bi_bool(it, a, k, n):
    return it.truth(a[0], n) if a else False


@bi('format')
def bi_format(it, a, k, n):
    spec = a[1] if len(a) > 1 else ''
    return it.text_of(a[0], spec) if isinstance(spec, str) and not isinstance(a[0], str) else bi_str(it, a[:1], {}, n)


@bi('str', 'repr')
def bi_str(it, a, k, n):
    from .interp import StrTop
    if a and isinstance(a[0], (str, int)) and not isinstance(a[0], bool):
        return str(a[0])
    r = StrTop() if a else ''
    if a and isinstance(a[0], (Expr, Fraction)):
        r.value = a[0]
    return r


@bi('dict')
def bi_dict(it, a, k, n):
    d = ADict()
    if a:
        items = it.dict_items(a[0])
        if items is None:
            seq = it.iterate(a[0], n)
            if seq is None:
                return it.top('dict()', n)
            items = {x[0]: x[1] for x in (tuple(it.iterate(s, n)) for s in seq)}
        d.update(items)
    d.update(k)
    return d


@bi('list')
def bi_list(it, a, k, n):
    if not a:
        return AList()
    if getattr(a[0], 'listing', False):
        return a[0]
    s = it.iterate(a[0], n)
    return AList(s) if s is not None else it.top('list()', n)


@bi('tuple')
def bi_tuple(it, a, k, n):
    if not a:
        return ()
    if getattr(a[0], 'listing', False):
        return a[0]
    s = it.iterate(a[0], n)
    return tuple(s) if s is not None else it.top('tuple()', n)


@bi('set', 'frozenset')
def bi_set(it, a, k, n):
    if not a:
        return set()
    if getattr(a[0], 'listing', False):
        return a[0]
    s = it.iterate(a[0], n)
    try:
        return set(s) if s is not None else it.top('set()', n)
    except TypeError:
        return it.top('set of unhashable', n)


@bi('sorted')
def bi_sorted(it, a, k, n):
    if getattr(a[0], 'listing', False):
        return a[0]
    s = it.iterate(a[0], n)
    if s is None:
        return it.top('sorted', n)
    try:
        if k.get('key') is not None:
            return AList(sorted(s, key=lambda x: it.call(k['key'], [x], {}, n)))
        return AList(sorted(s, reverse=bool(k.get('reverse', False))))
    except TypeError:
        return AList(s)


@bi('reversed')
def bi_reversed(it, a, k, n):
    from .interp import SymRange
    if isinstance(a[0], SymRange):
        return a[0]
    s = it.iterate(a[0], n)
    return AList(reversed(list(s))) if s is not None else it.top('reversed', n)


@bi('map')
def bi_map(it, a, k, n):
    seqs = [it.lazily(x, n) for x in a[1:]]
    if any(s is None for s in seqs):
        return it.top('map', n)
    return LazyIter(it.call(a[0], list(xs), {}, n) for xs in zip(*seqs))


@bi('filter')
def bi_filter(it, a, k, n):
    s = it.lazily(a[1], n)
    if s is None:
        return it.top('filter', n)
    return LazyIter(x for x in s if it.truth(x if a[0] is None else it.call(a[0], [x], {}, n)) is not False)


@bi('any')
def bi_any(it, a, k, n):
    s = it.lazily(a[0], n)
    if s is None:
        return Top('any')
    acc = X.ONE
    for x in s:
        t = it.truth(x, n)
        if t is True:
            return True
        if isinstance(t, AbsBool):
            acc = acc*(X.ONE - t.e)
        elif t is not False:
            return Top('any')
    return mkbool(X.ONE - acc)


@bi('all')
def bi_all(it, a, k, n):
    s = it.lazily(a[0], n)
    if s is None:
        return Top('all')
    acc = X.ONE
    for x in s:
        t = it.truth(x, n)
        if t is False:
            return False
        if isinstance(t, AbsBool):
            acc = acc*t.e
        elif t is not True:
            return Top('all')
    return mkbool(acc)


@bi('isinstance')
def bi_isinstance(it, a, k, n):
    v, t = a[0], a[1]
    ts = t if isinstance(t, tuple) else (t,)
    res = False
    for x in ts:
        r = inst1(it, v, x)
        if r is True:
            return True
        if r is None:
            res = None
    if res is None:
        return it.top('isinstance', n)
    return False


def inst1(it, v, t):
    if isinstance(v, Top):
        return None
    nm = t.name if isinstance(t, (Builtin, ClassObj)) else (t.q.split('.')[-1] if isinstance(t, Ext) else None)
    if isinstance(t, ClassObj):
        if isinstance(v, Obj) and isinstance(v.cls, ClassObj):
            return v.cls.isa(t)
        if isinstance(v, Obj) and v.cls in ('Params', 'AttrDict'):
            return t.name in ('AttributeDict',) or (t.name == v.cls)
        return False
    if nm == 'list':
        return isinstance(v, list)
    if nm == 'tuple':
        return isinstance(v, tuple)
    if nm == 'dict':
        return isinstance(v, dict) or isinstance(v, Obj) and v.cls in ('Params', 'AttrDict')
    if nm == 'str':
        from .interp import StrTop
        return isinstance(v, (str, StrTop))
    if nm == 'bool':
        return isinstance(v, (bool, AbsBool))
    if nm in ('int', 'integer', 'Integral'):
        return isinstance(v, int) or isinstance(v, IndexVar) or (isinstance(v, Expr) and all(
            'dim' in x.flags or 'int' in x.flags for x in v.atoms()))
    if nm in ('float', 'floating', 'Real', 'float64'):
        return isinstance(v, Fraction) or (isinstance(v, Expr) and not any(
            'dim' in x.flags or 'int' in x.flags or x is X.I_ATOM for x in v.atoms()))
    if nm in ('Number', 'Complex'):
        return is_num(v)
    if nm == 'complex':
        return isinstance(v, Expr) and X.I_ATOM in v.atoms()
    if nm == 'ndarray':
        return isinstance(v, Arr)
    if nm in ('Function', 'Array'):
        return isinstance(v, Arr) and v.kind == nm
    if nm == 'FunctionType':
        return isinstance(v, PyFunc)
    if nm in ('set', 'frozenset'):
        return isinstance(v, (set, frozenset))
    if isinstance(v, MObj) and nm in ('TensorProductSpace', 'VectorSpace', 'CompositeSpace', 'SpectralMatrix'):
        if nm == 'TensorProductSpace':
            return isinstance(v, TPS)
        if nm == 'CompositeSpace':
            return isinstance(v, CSpace)
        return isinstance(v, CSpace) and v.vector
    if nm == 'object':
        return True
    if isinstance(v, (int, str, Fraction, list, tuple, dict, Arr, Expr)) or v is None:
        return False
    return None


@bi('issubclass')
def bi_issubclass(it, a, k, n):
    if isinstance(a[0], ClassObj) and isinstance(a[1], ClassObj):
        return a[0].isa(a[1])
    return Top('issubclass')


@bi('callable')
def bi_callable(it, a, k, n):
    v = a[0]
    if isinstance(v, Top):
        return Top('callable')
    return isinstance(v, (PyFunc, Builtin, Bound, Ext, ClassObj)) or isinstance(v, (LinSolver, TDMASolver)) or (
        isinstance(v, Obj) and isinstance(v.cls, ClassObj) and v.cls.lookup('__call__') is not None)


@bi('hasattr')
def bi_hasattr(it, a, k, n):
    nn = len(it.notes)
    try:
        v = it.get_attr(a[0], a[1], n)
    except AbsRaise as e:
        if e.name == 'AttributeError':
            return False
        raise
    if isinstance(v, Top):
        return Top('hasattr')
    return True


@bi('getattr')
def bi_getattr(it, a, k, n):
    if not isinstance(a[1], str):
        return it.top('getattr with unknown name', n)
    try:
        return it.get_attr(a[0], a[1], n)
    except AbsRaise as e:
        if len(a) > 2 and e.name == 'AttributeError':
            return a[2]
        raise


@bi('setattr')
def bi_setattr(it, a, k, n):
    if not isinstance(a[1], str):
        it.note('setattr with unknown name', n)
        return None
    it.set_attr(a[0], a[1], a[2], n)


@bi('delattr')
def bi_delattr(it, a, k, n):
    if isinstance(a[0], Obj):
        a[0].attrs.pop(a[1], None)


@bi('vars')
def bi_vars(it, a, k, n):
    if not a:
        return bi_locals(it, a, k, n)
    v = a[0]
    if isinstance(v, Obj):
        return v.attrs
    if isinstance(v, Module):
        return v.env
    if isinstance(v, ClassObj):
        return v.attrs
    return it.top('vars', n)


@bi('locals')
def bi_locals(it, a, k, n):
    return ADict(it.frames[-1].vars)


@bi('globals')
def bi_globals(it, a, k, n):
    return it.frames[-1].module.env


@bi('dir')
def bi_dir(it, a, k, n):
    if a and isinstance(a[0], (Obj,)):
        return AList(a[0].attrs.keys())
    if a and isinstance(a[0], Module):
        return AList(a[0].env.keys())
    return Top('dir')


@bi('type')
def bi_type(it, a, k, n):
    v = a[0]
    if isinstance(v, Obj) and isinstance(v.cls, ClassObj):
        return v.cls
    for nm, t in (('list', list), ('tuple', tuple), ('dict', dict), ('str', str), ('bool', bool), ('int', int)):
        if isinstance(v, t):
            return it.builtins[nm]
    if isinstance(v, Arr):
        return Ext('shenfun.' + v.kind) if v.kind else Ext('numpy.ndarray')
    return Ext('type.' + type(v).__name__)


@bi('print', 'input', 'id', 'hash', 'open', 'exec', 'help', 'breakpoint')
def bi_noop(it, a, k, n):
    return None


@bi('iter')
def bi_iter(it, a, k, n):
    if isinstance(a[0], LazyIter):
        return a[0]
    if len(a) > 1:
        def calls():
            while True:
                v = it.call(a[0], [], {}, n)
                if it.truth(it.compare('Eq', v, a[1], n), n) is True:
                    return
                yield v
        return LazyIter(calls())
    s = it.lazily(a[0], n)
    return LazyIter(iter(s)) if s is not None else it.top('iter', n)


@bi('next')
def bi_next(it, a, k, n):
    if isinstance(a[0], LazyIter):
        try:
            return next(a[0].src)
        except StopIteration:
            if len(a) > 1:
                return a[1]
            raise AbsRaise('StopIteration', '', n)
    if isinstance(a[0], Obj) and isinstance(a[0].cls, ClassObj) and a[0].cls.lookup('__next__'):
        try:
            return it.call(it.get_attr(a[0], '__next__', n), [], {}, n)
        except AbsRaise as e:
            if e.name == 'StopIteration' and len(a) > 1:
                return a[1]
            raise
    return it.top('next', n)


def lazy_method(it, o, name, node):
    run = getattr(o.src, 'run', None)
    if name == '__next__':
        return Builtin(name, lambda it2, a, k, n: bi_next(it2, [o], {}, n))
    if name == '__iter__':
        return Builtin(name, lambda it2, a, k, n: o)
    if name == 'send' and run is not None:
        def send(it2, a, k, n):
            try:
                return run.resume(a[0])
            except StopIteration:
                raise AbsRaise('StopIteration', '', n)
        return Builtin(name, send)
    if name == 'close' and run is not None:
        return Builtin(name, lambda it2, a, k, n: run.close())
    raise AbsRaise('AttributeError', "'generator' object has no attribute '%s'" % name, node)


def context_manager(it, v, node):
    """(enter, exit) for `with v`; exit(e) returns True if it swallows e."""
    if isinstance(v, CtxMgr):
        return (lambda: v.enter(it, node)), (lambda e: v.leave(it, e, node))
    if isinstance(v, Obj) and isinstance(v.cls, ClassObj) and v.cls.lookup('__enter__'):
        def ex(e):
            t = (None, None, None) if e is None else (Ext('builtins.' + e.name), Obj(e.name, msg=e.msg), None)
            return it.truth(it.call(it.get_attr(v, '__exit__', node), list(t), {}, node), node)
        return (lambda: it.call(it.get_attr(v, '__enter__', node), [], {}, node)), ex
    if isinstance(v, SFile):
        return (lambda: v), (lambda e: v.m_close(it, [], {}, node) and False)
    return (lambda: v), (lambda e: False)


class CtxMgr(MObj):
    CLS = 'contextmanager'

    def __init__(self, gen):
        MObj.__init__(self)
        self.gen = gen

    def enter(self, it, n):
        return bi_next(it, [self.gen], {}, n)

    def leave(self, it, e, n):
        run = self.gen.src.run
        if e is None:
            try:
                run.resume(None)
            except StopIteration:
                pass
            return False
        try:
            run.throw(e)
        except StopIteration:
            return True
        return False


@extf('contextmanager')
def ext_ctxm(it, a, k, n):
    f = a[0]
    return Builtin('contextmanager', lambda it2, a2, k2, n2: CtxMgr(it2.call(f, list(a2), k2, n2)))


@extf('suppress')
def ext_suppress(it, a, k, n):
    from .interp import _exc_matches
    names = [getattr(x, 'q', getattr(x, 'name', '?')).split('.')[-1] for x in a]
    m = CtxMgr(None)
    m.enter = lambda it2, n2: None
    m.leave = lambda it2, e, n2: e is not None and any(_exc_matches(e.name, x) for x in names)
    return m


@extf('closing')
def ext_closing(it, a, k, n):
    m = CtxMgr(None)
    m.enter = lambda it2, n2: a[0]

    def leave(it2, e, n2):
        it2.call(it2.get_attr(a[0], 'close', n2), [], {}, n2)
        return False
    m.leave = leave
    return m


@extf('nullcontext')
def ext_nullc(it, a, k, n):
    m = CtxMgr(None)
    m.enter = lambda it2, n2: a[0] if a else None
    m.leave = lambda it2, e, n2: False
    return m


# -------------------------------------------------- itertools and operator
def _lazies(it, a, n):
    r = [it.lazily(x, n) for x in a]
    if any(x is None for x in r):
        raise AnalysisError('iteration over unknown')
    return r


def it_chain(it, a, k, n):
    return LazyIter(itertools.chain.from_iterable(it.lazily(x, n) for x in a))


def it_seq(f):
    def g(it, a, k, n):
        return LazyIter(iter(f(*[list(x) for x in _lazies(it, a, n)], **k)))
    return g


def it_islice(it, a, k, n):
    return LazyIter(itertools.islice(it.lazily(a[0], n), *a[1:]))


def it_accumulate(it, a, k, n):
    f = a[1] if len(a) > 1 else k.get('func')

    def add(x, y):
        return it.binop('Add', x, y, n) if f is None else it.call(f, [x, y], {}, n)
    kw = {'initial': k['initial']} if k.get('initial') is not None else {}
    return LazyIter(itertools.accumulate(it.lazily(a[0], n), add, **kw))


def it_count(it, a, k, n):
    return LazyIter(itertools.count(*a, **k))


def it_repeat(it, a, k, n):
    return LazyIter(itertools.repeat(*a, **k))


def it_starmap(it, a, k, n):
    return LazyIter(it.call(a[0], list(it.iterate(x, n)), {}, n) for x in it.lazily(a[1], n))


def it_takewhile(it, a, k, n):
    return LazyIter(itertools.takewhile(lambda x: it.truth(it.call(a[0], [x], {}, n), n) is True, it.lazily(a[1], n)))


ITERTOOLS = {'chain': it_chain, 'chain.from_iterable': lambda it, a, k, n: it_chain(it, it.iterate(a[0], n), k, n),
             'product': it_seq(itertools.product), 'islice': it_islice, 'accumulate': it_accumulate, 'count': it_count,
             'repeat': it_repeat, 'starmap': it_starmap, 'takewhile': it_takewhile, 'cycle': it_seq(itertools.cycle),
             'zip_longest': it_seq(itertools.zip_longest), 'pairwise': it_seq(itertools.pairwise),
             'combinations': lambda it, a, k, n: LazyIter(itertools.combinations(it.iterate(a[0], n), a[1])),
             'permutations': lambda it, a, k, n: LazyIter(itertools.permutations(it.iterate(a[0], n), *a[1:])),
             'combinations_with_replacement':
                 lambda it, a, k, n: LazyIter(itertools.combinations_with_replacement(it.iterate(a[0], n), a[1]))}
OPS = {'add': 'Add', 'sub': 'Sub', 'mul': 'Mult', 'truediv': 'Div', 'pow': 'Pow', 'mod': 'Mod', 'floordiv': 'FloorDiv',
       'and_': 'BitAnd', 'or_': 'BitOr', 'xor': 'BitXor'}
CMPS = {'eq': 'Eq', 'ne': 'NotEq', 'lt': 'Lt', 'le': 'LtE', 'gt': 'Gt', 'ge': 'GtE', 'is_': 'Is', 'is_not': 'IsNot'}


def call_operator(it, name, a, k, n):
    name = name.strip('_') if name.strip('_') in OPS or name.strip('_') in CMPS else name
    if name in OPS:
        return it.binop(OPS[name], a[0], a[1], n)
    if name in CMPS:
        return it.compare(CMPS[name], a[0], a[1], n)
    if name in ('iadd', 'isub', 'imul', 'itruediv'):
        op = OPS[name[1:]]
        if isinstance(a[0], Arr):
            it.arr_inplace(a[0], op, a[1], n)
            return a[0]
        return it.binop(op, a[0], a[1], n)
    if name == 'neg':
        return it.binop('Mult', -1, a[0], n)
    if name == 'not_':
        t = it.truth(a[0], n)
        return (not t) if isinstance(t, bool) else mkbool(X.ONE - t.e) if isinstance(t, AbsBool) else t
    if name == 'truth':
        return it.truth(a[0], n)
    if name == 'contains':
        return it.compare('In', a[1], a[0], n)
    if name == 'getitem':
        return it.get_item(a[0], a[1], n)
    if name == 'setitem':
        it.set_item(a[0], a[1], a[2], n)
        return None
    if name == 'itemgetter':
        def ig(it2, a2, k2, n2):
            r = tuple(it2.get_item(a2[0], q, n2) for q in a)
            return r[0] if len(r) == 1 else r
        return Builtin('itemgetter', ig)
    if name == 'attrgetter':
        def get(it2, o, q, n2):
            for w in q.split('.'):
                o = it2.get_attr(o, w, n2)
            return o

        def ag(it2, a2, k2, n2):
            r = tuple(get(it2, a2[0], q, n2) for q in a)
            return r[0] if len(r) == 1 else r
        return Builtin('attrgetter', ag)
    if name == 'methodcaller':
        return Builtin('methodcaller', lambda it2, a2, k2, n2: it2.call(it2.get_attr(a2[0], a[0], n2), list(a[1:]), k, n2))
    return NotImplemented


@extf('namedtuple')
def ext_namedtuple(it, a, k, n):
    fields = a[1].replace(',', ' ').split() if isinstance(a[1], str) else list(it.iterate(a[1], n))
    dflt = list(it.iterate(k['defaults'], n)) if k.get('defaults') is not None else []
    return Builtin(a[0], lambda it2, a2, k2, n2: NTuple(a[0], fields, dflt, a2, k2, n2))


class NTuple(tuple):
    def __new__(cls, name, fields, dflt, a, k, n):
        v = dict(zip(fields[len(fields)-len(dflt):], dflt))
        v.update(zip(fields, a))
        v.update(k)
        if len(a) > len(fields) or set(v) != set(fields):
            raise AbsRaise('TypeError', '%s(): wrong arguments' % name, n)
        o = tuple.__new__(cls, [v[f] for f in fields])
        o.fields, o.name = fields, name
        return o


@extf('dataclass')
def ext_dataclass(it, a, k, n):
    def deco(it2, a2, k2, n2):
        c = a2[0]
        ann = [s.target.id for s in getattr(c, 'body', ()) if isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name)]
        names = [f for b in c.bases if isinstance(b, ClassObj) for f in getattr(b, 'dc_fields', ())]
        names += [f for f in ann if f not in names]
        c.dc_fields = names

        def init(it3, a3, k3, n3):
            o, vals = a3[0], dict(zip(names, a3[1:]))
            vals.update(k3)
            for f in names:
                if f not in vals:
                    d = c.lookup(f)
                    if d is None:
                        raise AbsRaise('TypeError', '__init__() missing argument %s' % f, n3)
                    vals[f] = d[0]
                    if isinstance(d[0], DCField):
                        vals[f] = d[0].value(it3, n3)
                o.attrs[f] = vals[f]
            p = c.lookup('__post_init__')
            if p is not None:
                it3.call(Bound(p[0], o), [], {}, n3)
        if '__init__' not in c.attrs:
            c.attrs['__init__'] = Builtin('__init__', init)
        return c
    if a:
        return deco(it, a, {}, n)
    return Builtin('dataclass', deco)


class DCField(object):
    def __init__(self, k):
        self.k = k

    def value(self, it, n):
        return it.call(self.k['default_factory'], [], {}, n) if 'default_factory' in self.k else self.k.get('default')


def ext_dcfield(it, a, k, n):
    return DCField(k)


@bi('slice')
def bi_slice(it, a, k, n):
    return slice(*a)


@bi('staticmethod')
def bi_static(it, a, k, n):
    from .interp import StaticM
    return StaticM(a[0])


@bi('classmethod')
def bi_classm(it, a, k, n):
    from .interp import ClassM
    return ClassM(a[0])


@bi('property')
def bi_prop(it, a, k, n):
    from .interp import PropM
    return PropM(a[0])


@bi('super')
def bi_super(it, a, k, n):
    fr = it.frames[-1]
    cls = getattr(fr, 'cls', None)
    slf = None
    if fr.func is not None and fr.func.node.args.args:
        slf = fr.vars.get(fr.func.node.args.args[0].arg)
    return Super(cls, slf)


class Super(MObj):
    CLS = 'super'

    def __init__(self, cls, slf):
        MObj.__init__(self)
        self.c, self.slf = cls, slf


@bi('eval')
def bi_eval(it, a, k, n):
    from .interp import StrTop, Frame
    if isinstance(a[0], StrTop) and getattr(a[0], 'value', None) is not None:
        return a[0].value
    if isinstance(a[0], str) and len(a) > 1 and isinstance(a[1], dict) and all(isinstance(x, dict) for x in a[1:]):
        try:
            tree = ast.parse(a[0].strip(), mode='eval')
        except SyntaxError:
            raise AbsRaise('SyntaxError', a[0], n)
        ns = ADict()
        for d in a[1:]:
            ns.update(d)
        for q in ast.walk(tree):
            if isinstance(q, ast.Name) and q.id not in ns:
                if not ('__builtins__' in a[1] and not a[1]['__builtins__']):
                    return it.top('eval', n)
                raise AbsRaise('NameError', q.id, n)
            if hasattr(q, 'lineno'):
                q.lineno = getattr(n, 'lineno', 1)
        fr = Frame(it.frames[-1].module, [], None)
        fr.vars = ns
        return it.ev(tree.body, fr)
    return it.top('eval', n)


@bi('__import__')
def bi_import(it, a, k, n):
    return it.import_module(a[0]) if isinstance(a[0], str) else it.top('__import__', n)


@bi('__cy_typed__')
def bi_cy_typed(it, a, k, n):
    from . import cyx
    ty, v = a
    fr = it.frames[-1]
    fused = getattr(fr.module.tree, 'c_fused', {})
    cyx.check_value(it, ty, v, fused, cyx.precision_of(fr.module.name), 'typed declaration', n)
    return v


@bi('__cy_scalar__')
def bi_cy_scalar(it, a, k, n):
    ty, v = a
    if ty in ('int', 'unsigned int', 'long', 'np.int_t'):
        e = to_expr(v)
        if e is not None and X.const_value(e) is not None:
            return int(X.const_value(e))
    from . import cyx
    return cyx.scalar_store(it, ty, v, it.frames[-1])


@bi('__cy_vector__')
def bi_cy_vector(it, a, k, n):
    return AList()


@bi('__cy_addr__')
def bi_cy_addr(it, a, k, n):
    return CPtr(a[0], a[1])


EXC = ('Exception', 'BaseException', 'KeyError', 'AttributeError', 'ValueError', 'TypeError', 'IndexError', 'ImportError',
       'ModuleNotFoundError', 'RuntimeError', 'NotImplementedError', 'AssertionError', 'ZeroDivisionError', 'OSError',
       'IOError', 'StopIteration', 'NameError', 'LookupError', 'SystemExit', 'KeyboardInterrupt', 'FileNotFoundError',
       'Warning', 'DeprecationWarning', 'object', 'UnboundLocalError')


def make_builtins(it):
    d = {}
    for n, f in BI.items():
        d[n] = Builtin(n, f)
    for n in EXC:
        d[n] = Ext('builtins.' + n)
    d['NotImplemented'] = Ext('builtins.NotImplemented')
    d['Ellipsis'] = Ellipsis
    d['__name__'] = '<module>'
    d['True'], d['False'], d['None'] = True, False, None
    X.AT_HOOKS[:] = [at_zero_hook(it)]
    return d
