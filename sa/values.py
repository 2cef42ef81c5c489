"""Runtime value kinds of the abstract interpreter (everything but Expr)."""
import weakref
from fractions import Fraction
from . import expr as X
from .expr import Expr, lift


class AbsRaise(Exception):
    """A Python exception the analysed program raises on every value."""
    def __init__(self, name, msg='', node=None):
        Exception.__init__(self, '%s: %s' % (name, msg))
        self.name, self.msg, self.node = name, msg, node


class AnalysisError(Exception):
    """The analyser cannot go on (never a verdict)."""


class Top(object):
    """Unknown value.  `of` is an array it may be a view of."""
    def __init__(self, why='', of=None):
        self.why = why
        self.of = of

    def __repr__(self):
        return 'Top(%s)' % self.why


class AbsBool(object):
    """Condition: a 0/1 valued Expr."""
    def __init__(self, e):
        self.e = e

    def __repr__(self):
        return 'AbsBool(%s)' % self.e


def mkbool(e):
    c = X.const_value(e)
    if c is not None:
        return c != 0
    return AbsBool(e)


class Ext(object):
    """A name from a library outside the repository."""
    def __init__(self, q):
        self.q = q

    def __repr__(self):
        return 'Ext(%s)' % self.q

    def __eq__(self, o):
        return isinstance(o, Ext) and o.q == self.q

    def __hash__(self):
        return hash(self.q)


class IndexVar(object):
    """Loop variable ranging over a symbolic array dimension."""
    def __init__(self, dim, lo, hi, uid):
        self.dim, self.lo, self.hi, self.uid = dim, lo, hi, uid

    def expr(self):
        return X.sym('ix%d' % self.uid, (), ('real', 'nonneg', 'index'))

    def full(self):
        return X.const_value(lift(self.lo)) == 0 and lift(self.hi) == lift(self.dim)

    def __repr__(self):
        return 'IndexVar(%s:%s,%s)' % (self.dim, self.lo, self.hi)


STORES = weakref.WeakSet()
CONTAINERS = weakref.WeakSet()


class Store(object):
    """Memory block: one abstract value per component (generic grid point)."""
    _n = 0

    def __init__(self, ncell, dims, dtype, name=None, init=None):
        self.cells = [init if init is not None else X.ZERO]*ncell
        self.dims = tuple(dims)
        self.dtype = dtype
        self.name = name
        self.prov = [None]*ncell
        Store._n += 1
        self.uid = Store._n
        STORES.add(self)


class Arr(object):
    """View on a Store.

    cshape: leading (concrete) component shape; idx: flat cell indices;
    dims:   remaining spatial dims (Expr or 1), None-free;
    fixed:  restriction of store dims: tuple of (store axis, index);
    axes:   store axis carried by each visible dim (None for newaxis)."""
    def __init__(self, store, cshape, idx, dims, fixed=(), axes=None, space=None, kind=None):
        self.store, self.cshape, self.idx = store, tuple(cshape), list(idx)
        self.dims = tuple(dims)
        self.fixed = tuple(fixed)
        self.axes = tuple(range(len(self.dims))) if axes is None else tuple(axes)
        self.space = space
        self.kind = kind          # 'Function' | 'Array' | None (plain ndarray)

    @property
    def shape(self):
        return self.cshape + self.dims

    @property
    def dtype(self):
        return self.store.dtype

    def size(self):
        n = 1
        for c in self.cshape:
            n *= c
        return n

    def __repr__(self):
        return 'Arr(%s,%s,%s)' % (self.store.name or self.store.uid, self.cshape, self.dims)


def region_of(fixed):
    return tuple(fixed)


class AList(list):
    __slots__ = ('__weakref__',)

    def __init__(self, *a):
        list.__init__(self, *a)
        CONTAINERS.add(self)
    __hash__ = object.__hash__

    def __eq__(self, o):
        return list.__eq__(self, o)


class ADict(dict):
    __slots__ = ('__weakref__', 'default')

    def __init__(self, *a, **k):
        dict.__init__(self, *a, **k)
        CONTAINERS.add(self)
    __hash__ = object.__hash__


class Obj(object):
    """Object with attributes (class instance, AttributeDict, model object)."""
    def __init__(self, cls, **attrs):
        self.cls = cls            # ClassObj or str
        self.attrs = ADict(attrs)

    def __repr__(self):
        return 'Obj(%s)' % (self.cls if isinstance(self.cls, str) else self.cls.name)


class ClassObj(object):
    def __init__(self, name, bases, attrs, module=None):
        self.name, self.bases, self.attrs, self.module = name, bases, ADict(attrs), module

    def lookup(self, name):
        if name in self.attrs:
            return self.attrs[name], self
        for b in self.bases:
            if isinstance(b, ClassObj):
                r = b.lookup(name)
                if r is not None:
                    return r
        return None

    def isa(self, other):
        if self is other:
            return True
        return any(isinstance(b, ClassObj) and b.isa(other) for b in self.bases)

    def ext_bases(self):
        r = set()
        for b in self.bases:
            if isinstance(b, ClassObj):
                r |= b.ext_bases()
            else:
                r.add(b)
        return r

    def __repr__(self):
        return 'ClassObj(%s)' % self.name


class PyFunc(object):
    def __init__(self, node, module, env, defaults, kwdefaults, name, cls=None):
        self.node, self.module, self.env = node, module, env
        self.defaults, self.kwdefaults, self.name, self.cls = defaults, kwdefaults, name, cls
        self.attrs = ADict()
        self.wrapped = None

    def __repr__(self):
        return 'PyFunc(%s.%s)' % (self.module.name, self.name)


class Builtin(object):
    """Model function: f(interp, args, kwargs, node)."""
    def __init__(self, name, f):
        self.name, self.f = name, f
        self.attrs = {}

    def __repr__(self):
        return 'Builtin(%s)' % self.name


class Bound(object):
    def __init__(self, func, self_):
        self.func, self.self_ = func, self_


class LazyIter(object):
    """Iterator: generator, generator expression, iter(), zip(), map() ..."""
    def __init__(self, src):
        self.src = src

    def __iter__(self):
        return self.src

    def __next__(self):
        return next(self.src)


class Module(object):
    def __init__(self, name, path, tree):
        self.name, self.path, self.tree = name, path, tree
        self.env = ADict()

    def __repr__(self):
        return 'Module(%s)' % self.name


def is_num(v):
    return isinstance(v, (int, Fraction, Expr)) and not isinstance(v, bool)


def to_expr(v):
    """Numeric value -> Expr, or None."""
    if isinstance(v, Expr):
        return v
    if isinstance(v, (bool, int, Fraction, float, complex)):
        return lift(v)
    if isinstance(v, AbsBool):
        return v.e
    if isinstance(v, IndexVar):
        return v.expr()
    return None


def simp(e):
    """Expr -> python int/Fraction when constant."""
    if isinstance(e, Expr):
        c = X.const_value(e)
        if c is not None:
            return int(c) if c.denominator == 1 else c
    return e


PROMO = {'b': 0, 'i8': 1, 'f4': 2, 'f8': 3, 'c8': 4, 'c16': 5}


def promote(a, b):
    if a is None:
        return b
    if b is None:
        return a
    if a not in PROMO or b not in PROMO:
        return a if b not in PROMO else b
    if {a, b} == {'f8', 'c8'}:
        return 'c16'
    return a if PROMO[a] >= PROMO[b] else b
