"""Algebraic value domain: polynomials in normal form over interned atoms.

An abstract numeric value is a multivariate Laurent polynomial with rational
coefficients.  Atoms are symbols (nu, dt, a component of a field at the generic
grid point, a wavenumber ...), applications of uninterpreted functions to other
abstract values, 0/1 indicator atoms (conditions, index regions) and inverses of
polynomials.  Two program expressions that are algebraically equal get the same
normal form, whatever order, helper or loop they were written with.

No solver is involved: equality is syntactic equality of normal forms.
"""
from fractions import Fraction
import sys
sys.setrecursionlimit(20000)

ALL = frozenset((0, 1, 2))
NONE = frozenset()


class Atom(object):
    __slots__ = ('kind', 'name', 'args', 'dep', 'flags', 'id', '_s')

    def __repr__(self):
        return atom_str(self)


_TABLE = {}
_BYID = []


def _intern(kind, name, args, dep, flags):
    k = (kind, name, args)
    a = _TABLE.get(k)
    if a is None:
        a = Atom()
        a.kind, a.name, a.args, a.dep = kind, name, args, dep
        a.flags = frozenset(flags)
        a.id = len(_BYID)
        a._s = None
        _TABLE[k] = a
        _BYID.append(a)
    return a


I_ATOM = _intern('sym', 'I', (), NONE, ())


def _lt_key(mono):
    return mono


class Expr(object):
    """Immutable polynomial: dict monomial -> Fraction.

    A monomial is a tuple of (atom id, exponent) sorted by atom id."""
    __slots__ = ('t', '_key')

    def __init__(self, t):
        self.t = t
        self._key = None

    # identity -----------------------------------------------------------
    def key(self):
        if self._key is None:
            self._key = tuple(sorted(self.t.items()))
        return self._key

    def __eq__(self, o):
        o = lift(o)
        if o is None:
            return NotImplemented
        return self.t == o.t

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return hash(self.key())

    def __repr__(self):
        return expr_str(self)

    # arithmetic ---------------------------------------------------------
    def __add__(self, o):
        o = lift(o)
        t = dict(self.t)
        for m, c in o.t.items():
            v = t.get(m, 0) + c
            if v == 0:
                t.pop(m, None)
            else:
                t[m] = v
        return Expr(t)
    __radd__ = __add__

    def __neg__(self):
        return Expr({m: -c for m, c in self.t.items()})

    def __sub__(self, o):
        return self + (-lift(o))

    def __rsub__(self, o):
        return lift(o) + (-self)

    def __mul__(self, o):
        o = lift(o)
        if not self.t or not o.t:
            return ZERO
        out = {}
        for m1, c1 in self.t.items():
            for m2, c2 in o.t.items():
                for m, c in mono_mul(m1, m2):
                    v = out.get(m, 0) + c*c1*c2
                    if v == 0:
                        out.pop(m, None)
                    else:
                        out[m] = v
        return Expr(out)
    __rmul__ = __mul__

    def __truediv__(self, o):
        return self * inverse(lift(o))

    def __rtruediv__(self, o):
        return lift(o) * inverse(self)

    def __pow__(self, n):
        n = const_value(lift(n))
        if n is None:
            raise ValueError('symbolic exponent')
        if n.denominator != 1:
            if n == Fraction(1, 2):
                return func('sqrt', self)
            return power(self, n)
        n = int(n)
        if n < 0:
            return inverse(self) ** (-n)
        r = ONE
        for _ in range(n):
            r = r*self
        return r

    # queries ------------------------------------------------------------
    def is_zero(self):
        return not self.t

    def atoms(self):
        s = set()
        for m in self.t:
            for i, _ in m:
                s.add(_BYID[i])
        return s

    def dep(self):
        d = NONE
        for a in self.atoms():
            d = d | a.dep
        return d


def mono_expr(m, c=1):
    return Expr({m: Fraction(c)})


def power(e, q):
    """e**q for a fractional q: distributed over the factors of a monomial."""
    if len(e.t) == 1:
        (m, c), = e.t.items()
        if c > 0 and all(is_real_atom(_BYID[i]) and _BYID[i].kind != 'ind' for i, _ in m):
            r = ONE if c == 1 else func('pow', lift(c), lift(q))
            for i, ex in m:
                p = q*ex
                a = func('pow', atom_expr(_BYID[i]), lift(abs(p)), flags=('real',)) \
                    if p.denominator != 1 else atom_expr(_BYID[i])**abs(p)
                r = r*(a if p > 0 else inverse(a))
            return r
    return func('pow', e, lift(q))


def lift(x):
    if isinstance(x, Expr):
        return x
    if isinstance(x, bool):
        return Expr({(): Fraction(1)}) if x else Expr({})
    if isinstance(x, (int, Fraction)):
        return Expr({(): Fraction(x)}) if x != 0 else Expr({})
    if isinstance(x, float):
        f = Fraction(repr(x))
        return Expr({(): f}) if f else Expr({})
    if isinstance(x, complex):
        return lift(x.real) + lift(x.imag)*IMAG
    return None


def const_value(e):
    """Fraction if e is a rational constant, else None."""
    if not e.t:
        return Fraction(0)
    if len(e.t) == 1 and () in e.t:
        return e.t[()]
    return None


def atom_expr(a):
    return Expr({((a.id, 1),): Fraction(1)})


def sym(name, dep=NONE, flags=()):
    return atom_expr(_intern('sym', name, (), frozenset(dep), flags))


ZERO = Expr({})
ONE = Expr({(): Fraction(1)})
IMAG = atom_expr(I_ATOM)


# ---------------------------------------------------------------- monomials
def mono_mul(m1, m2):
    """Product of two monomials -> list of (monomial, coefficient)."""
    d = dict(m1)
    for i, e in m2:
        d[i] = d.get(i, 0) + e
    return mono_norm(d)


def mono_norm(d):
    c = 1
    # I**2 = -1
    e = d.pop(I_ATOM.id, 0) % 4
    if e >= 2:
        c = -c
        e -= 2
    if e:
        d[I_ATOM.id] = 1
    inds = None
    for i in list(d):
        ex = d[i]
        if ex == 0:
            del d[i]
            continue
        a = _BYID[i]
        if a.kind in ('ind', 'reg'):
            if ex != 1:
                d[i] = 1
            if a.kind == 'reg':
                inds = True
        elif 'idem' in a.flags and ex > 1:
            d[i] = 1
    if inds:
        return _norm_regions(d, c)
    zero = False
    for i in list(d):
        a = _BYID[i]
        if a.kind == 'ind' and a.name == 'eq0':
            za = _zero_atoms(a)
            if za:
                for j in list(d):
                    b = _BYID[j]
                    if b.kind == 'inv' and d.get(j):
                        k = _inv_at_zero(b, a, za)
                        if k is not None:
                            c = c * k**d[j]
                            del d[j]
                if not any(_BYID[j].kind == 'inv' for j in d):
                    if any(j in za and d[j] > 0 for j in d):
                        zero = True
    if zero:
        return []
    return [(tuple(sorted(d.items())), c)]


_ZA = {}


def _zero_atoms(ind):
    """Atoms that vanish where the indicator [p == 0] holds (p a sum of even
    powers of real atoms with positive coefficients)."""
    r = _ZA.get(ind.id)
    if r is None:
        r = set()
        p = ind.args[0]
        if is_sum_of_squares(p):
            for m in p.t:
                if len(m) == 1:
                    r.add(m[0][0])
        _ZA[ind.id] = r
    return r


_IZ = {}


def _inv_at_zero(b, ind, za):
    """Value of 1/q on the zero set of `ind` when it is a non-zero constant."""
    key = (b.id, ind.id)
    if key not in _IZ:
        q = b.args[0]
        rest = {m: c for m, c in q.t.items() if not any(i in za and e > 0 for i, e in m)}
        ok = (set(rest) == {()} and
              all(e > 0 for m in q.t for i, e in m if i in za))
        _IZ[key] = Fraction(1)/rest[()] if ok else None
    return _IZ[key]


def is_sum_of_squares(p):
    if not p.t:
        return False
    for m, c in p.t.items():
        if c <= 0:
            return False
        for i, e in m:
            a = _BYID[i]
            if e % 2 or not is_real_atom(a):
                return False
    return True


def is_real_atom(a):
    return a is not I_ATOM and ('real' in a.flags or a.kind in ('ind', 'reg'))


# ------------------------------------------------------------------ regions
# A region is a tuple of (axis, index) pairs, index an int or ('rng', lo, hi).
def region_ind(region):
    region = tuple(sorted(region, key=repr))
    if not region:
        return ONE
    return atom_expr(_intern('reg', region, (), frozenset(a for a, _ in region), ()))


def _merge_regions(r1, r2):
    d = dict(r1)
    for ax, ix in r2:
        if ax in d and d[ax] != ix:
            a, b = d[ax], ix
            if isinstance(a, int) and isinstance(b, int):
                if (a >= 0) == (b >= 0) or True:
                    return None      # distinct fixed indices never coincide
            return 'overlap'
        d[ax] = ix
    return tuple(sorted(d.items(), key=repr))


def _norm_regions(d, c):
    regs = [i for i in d if _BYID[i].kind == 'reg']
    reg = ()
    for i in regs:
        reg2 = _merge_regions(reg, _BYID[i].name)
        if reg2 is None:
            return []
        if reg2 == 'overlap':
            return [(tuple(sorted(d.items())), c)]
        reg = reg2
    rest = {i: e for i, e in d.items() if i not in regs}
    e = restrict(Expr({tuple(sorted(rest.items())): Fraction(c)}), reg)
    ra = region_ind(reg)
    rid = next(iter(ra.t))
    out = []
    for m, cc in e.t.items():
        dd = dict(m)
        for i, ex in rid:
            dd[i] = ex
        out.append((tuple(sorted(dd.items())), cc))
    return out


def region_is_fixed(reg):
    return all(isinstance(ix, int) for _, ix in reg)


AT_HOOKS = []   # functions (atom, region) -> Expr or None


def restrict(e, region):
    """Value of the field e on an index region."""
    if not region:
        return e
    region = tuple(sorted(region, key=repr))
    out = ZERO
    for m, c in e.t.items():
        term = lift(c)
        zero = False
        # vanish first: a factor that is zero on the region beats an inverse
        parts = []
        for i, ex in m:
            a = _BYID[i]
            v = restrict_atom(a, region)
            if v.is_zero() and ex > 0:
                zero = True
                break
            parts.append((v, ex))
        if zero:
            continue
        for v, ex in parts:
            term = term * (v**ex)
        out = out + term
    return out


def restrict_atom(a, region):
    axes = frozenset(ax for ax, _ in region)
    if not (a.dep & axes):
        return atom_expr(a)
    if a.kind == 'reg':
        # same axis/index -> drop; disjoint -> 0
        rest = []
        rd = dict(region)
        for ax, ix in a.name:
            if ax in rd:
                if rd[ax] == ix:
                    continue
                if isinstance(ix, int) and isinstance(rd[ax], int):
                    return ZERO
                rest.append((ax, ix))
            else:
                rest.append((ax, ix))
        return region_ind(tuple(rest))
    for h in AT_HOOKS:
        v = h(a, region)
        if v is not None:
            return v
    if a.kind == 'lin':
        op, axs, inner = a.args
        if not (axs & axes):
            return linop(map_op(op, lambda x: restrict(x, region)), restrict(inner, region), axs)
    if a.kind == 'inv':
        return inverse(restrict(a.args[0], region))
    if a.kind == 'ind':
        return _mk_ind(a.name, tuple(restrict(x, region) if isinstance(x, Expr) else x for x in a.args))
    if a.kind == 'at':
        reg2 = _merge_regions(a.args[1], region)
        if reg2 is None:
            return atom_expr(a)
        if reg2 != 'overlap':
            return atom_expr(_at(a.args[0], reg2))
    if a.kind == 'fun' and 'pointwise' in a.flags:
        return func(a.name, *[restrict(x, region) if isinstance(x, Expr) else x for x in a.args],
                    pointwise=True)
    return atom_expr(_at(a, region))


def _at(a, region):
    region = tuple(sorted(((ax, ix) for ax, ix in region if ax in a.dep), key=repr))
    fixed = frozenset(ax for ax, ix in region if isinstance(ix, int))
    return _intern('at', None, (a, region), a.dep - fixed, a.flags)


# ----------------------------------------------------------------- inverses
def inverse(e):
    e = lift(e)
    if not e.t:
        raise ZeroDivisionError
    if len(e.t) == 1:
        (m, c), = e.t.items()
        # indicator atoms have no inverse; fall through to generic atom
        if not any(_BYID[i].kind in ('ind', 'reg') for i, _ in m):
            r = ONE
            for i, ex in m:
                a = _BYID[i]
                if a is I_ATOM:
                    r = r * (-IMAG if ex == 1 else ONE)
                elif a.kind == 'inv' and ex > 0:
                    r = r * (a.args[0]**ex)
                else:
                    r = r * Expr({((i, -ex),): Fraction(1)})
            return r * lift(Fraction(1)/c)
    # case split on an indicator
    for a in sorted(e.atoms(), key=lambda x: x.id):
        if a.kind == 'ind':
            e1, e0 = subst_ind(e, a, 1), subst_ind(e, a, 0)
            d = atom_expr(a)
            return d*inverse(e1) + (ONE - d)*inverse(e0)
    # normalise by leading coefficient and by monomial content
    lead = min(e.t)
    c = e.t[lead]
    content = None
    for m in e.t:
        dm = {i: x for i, x in m if i != I_ATOM.id}
        if content is None:
            content = dm
        else:
            content = {i: min(content.get(i, 0), dm.get(i, 0)) for i in set(content) | set(dm)}
    content = {i: x for i, x in (content or {}).items() if x != 0
               and _BYID[i].kind not in ('inv', 'ind', 'reg') and 'idem' not in _BYID[i].flags}
    inv_content = ONE
    if content:
        cm = tuple(sorted((i, -x) for i, x in content.items()))
        inv_content = Expr({cm: Fraction(1)})
    p = e * inv_content
    lead = min(p.t)
    c = p.t[lead]
    p = p * lift(Fraction(1)/c)
    a = _intern('inv', None, (p,), p.dep(), ('real',) if all(is_real_atom(x) for x in p.atoms()) else ())
    return inv_content * lift(Fraction(1)/c) * atom_expr(a)


def subst_ind(e, a, val):
    out = ZERO
    for m, c in e.t.items():
        if any(i == a.id for i, _ in m):
            if val == 0:
                continue
            m = tuple((i, x) for i, x in m if i != a.id)
        out = out + Expr({m: c})
    return out


# --------------------------------------------------------- functions, linops
def func(name, *args, **kw):
    """Uninterpreted function application."""
    dep = NONE
    flags = set(kw.get('flags', ()))
    aa = []
    for x in args:
        if isinstance(x, Expr):
            dep = dep | x.dep()
        aa.append(x)
    if kw.get('pointwise'):
        flags.add('pointwise')
    if name in ('abs', 'sqrt', 'max', 'min'):
        flags.add('real')
    if kw.get('dep') is not None:
        dep = frozenset(kw['dep'])
    args = tuple(aa)
    return atom_expr(_intern('fun', name, args, dep, flags))


def linop(op, e, axes=ALL):
    """Linear operator `op` acting along `axes` applied to e.

    Distributes over sums and pulls out every factor that does not vary along
    the operator's axes."""
    axes = frozenset(axes)
    out = ZERO
    for m, c in e.t.items():
        outer, inner = [], []
        for i, ex in m:
            a = _BYID[i]
            if a.dep & axes:
                inner.append((i, ex))
            else:
                outer.append((i, ex))
        inn = Expr({tuple(inner): Fraction(1)})
        if not inner and not axes:
            at = inn
        else:
            at = None
            for h in LIN_HOOKS:
                at = h(op, inn, axes)
                if at is not None:
                    break
            if at is None:
                at = atom_expr(_intern('lin', None, (op, axes, inn), inn.dep() | axes | op_dep(op), ()))
        out = out + Expr({tuple(outer): c}) * at
    return out


LIN_HOOKS = []


def op_exprs(op):
    if isinstance(op, Expr):
        return [op]
    if isinstance(op, tuple):
        return [e for x in op for e in op_exprs(x)]
    return []


def op_dep(op):
    d = NONE
    for e in op_exprs(op):
        d = d | e.dep()
    return d


def map_op(op, f):
    if isinstance(op, Expr):
        return f(op)
    if isinstance(op, tuple):
        return tuple(map_op(x, f) for x in op)
    return op


def conj(e):
    out = ZERO
    for m, c in e.t.items():
        # real factors are kept together: the normal form of a part of a
        # product with an indicator and an inverse may be zero
        keep = tuple((i, ex) for i, ex in m if _self_conj(_BYID[i]))
        t = Expr({keep: Fraction(c)})
        for i, ex in m:
            a = _BYID[i]
            if a is I_ATOM:
                t = t * (-IMAG if ex % 2 else ONE)
            elif _self_conj(a):
                pass
            elif a.kind == 'fun' and a.name == 'conj':
                t = t * (a.args[0]**ex)
            elif a.kind == 'inv':
                t = t * (inverse(conj(a.args[0]))**ex)
            else:
                t = t * (func('conj', atom_expr(a), pointwise=True)**ex)
        out = out + t
    return out


def _self_conj(a):
    return a is not I_ATOM and (is_real_atom(a) or a.kind == 'inv' and conj(a.args[0]) == a.args[0])


def real(e):
    return (e + conj(e)) * lift(Fraction(1, 2))


def imag(e):
    return (e - conj(e)) * (-IMAG) * lift(Fraction(1, 2))


def is_real(e):
    return all(is_real_atom(a) for a in e.atoms())


# -------------------------------------------------------------- conditions
def _mk_ind(name, args):
    """0/1-valued condition atom, folded when decidable."""
    if name == 'eq0':
        p = args[0]
        c = const_value(p)
        if c is not None:
            return ONE if c == 0 else ZERO
        if nonzero(p):
            return ZERO
        # normalise sign/scale
        lead = min(p.t)
        p = p * lift(Fraction(1)/p.t[lead])
        if len(p.t) == 1:
            m, = p.t
            # product == 0 with nonzero factors removed
            mm = tuple((i, 1) for i, x in m if x > 0 and not nonzero(atom_expr(_BYID[i])))
            p = Expr({mm: Fraction(1)})
        return atom_expr(_intern('ind', 'eq0', (p,), p.dep(), p_flags(p)))
    if name == 'gt0':
        p = args[0]
        c = const_value(p)
        if c is not None:
            return ONE if c > 0 else ZERO
        if is_sum_of_squares(p):
            return ONE - _mk_ind('eq0', (p,))
        if is_sum_of_squares(-p):
            return ZERO
        s = sign(p)
        if s == '+':
            return ONE
        if s == '-' or s == '-0':
            return ZERO
        if s == '0+':
            return ONE - _mk_ind('eq0', (p,))
        lead = min(p.t)
        k = abs(p.t[lead])
        p = p * lift(Fraction(1)/k)
        # orient: [p>0] canonical if lead coeff positive, else 1-[p'>0]-[p'==0]
        if p.t[min(p.t)] < 0:
            q = -p
            return ONE - _mk_ind('gt0', (q,)) - _mk_ind('eq0', (q,))
        return atom_expr(_intern('ind', 'gt0', (p,), p.dep(), p_flags(p)))
    dep = NONE
    for a in args:
        if isinstance(a, Expr):
            dep = dep | a.dep()
    return atom_expr(_intern('ind', name, tuple(args), dep, ()))


def p_flags(p):
    return ('real',)


def cond(name, *args):
    return _mk_ind(name, tuple(args))


def sign(p):
    """'+', '-', '0+' or None from atom flags (pos / nonneg)."""
    if not p.t:
        return '0'
    ss = set()
    for m, c in p.t.items():
        s = 1 if c > 0 else -1
        strict = True
        for i, e in m:
            a = _BYID[i]
            if 'pos' in a.flags:
                continue
            if 'nonneg' in a.flags or (e % 2 == 0 and is_real_atom(a)):
                strict = False
                continue
            return None
        ss.add((s, strict))
    signs = {s for s, _ in ss}
    if len(signs) > 1:
        return None
    strict = any(st for _, st in ss)
    if signs == {1}:
        return '+' if strict else '0+'
    return '-' if strict else '-0'


def nonzero(p):
    return sign(p) in ('+', '-')


# ------------------------------------------------------------------ compare
def equal(a, b):
    """Equality of rational functions: clear polynomial inverses, compare."""
    a, b = lift(a), lift(b)
    d = a - b
    if d.is_zero():
        return True
    for _ in range(6):
        invs = [x for x in d.atoms() if x.kind == 'inv']
        if not invs:
            return d.is_zero()
        x = max(invs, key=lambda q: q.id)
        mx = max((e for m in d.t for i, e in m if i == x.id), default=0)
        mn = min((e for m in d.t for i, e in m if i == x.id), default=0)
        if mn < 0:
            return False
        new = ZERO
        for m, c in d.t.items():
            e = dict(m).get(x.id, 0)
            rest = tuple((i, q) for i, q in m if i != x.id)
            new = new + Expr({rest: c}) * (x.args[0]**(mx-e))
        d = new
        if d.is_zero():
            return True
    return d.is_zero()


def substitute(e, f):
    """Replace atoms: f(atom) -> Expr or None, recursively into arguments."""
    out = ZERO
    keep = {}
    memo = {}
    for m, c in e.t.items():
        same, changed = [], []
        for i, ex in m:
            if i not in memo:
                a = _BYID[i]
                v = subst_atom(a, f)
                memo[i] = None if len(v.t) == 1 and v.t.get(((i, 1),)) == 1 else v
            v = memo[i]
            if v is None:
                same.append((i, ex))
            else:
                changed.append((v, ex))
        if not changed:
            keep[m] = c
            continue
        # unchanged factors stay together: their product is already normal
        t = Expr({tuple(same): c})
        for v, ex in changed:
            t = t * (v**ex if ex >= 0 else inverse(v)**(-ex))
        out = out + t
    return out + Expr(keep) if keep else out


def subst_atom(a, f):
    v = f(a)
    if v is not None:
        return v
    if a.kind == 'fun':
        return func(a.name, *[substitute(x, f) if isinstance(x, Expr) else x for x in a.args],
                    pointwise='pointwise' in a.flags, flags=a.flags)
    if a.kind == 'lin':
        return linop(map_op(a.args[0], lambda x: substitute(x, f)), substitute(a.args[2], f), a.args[1])
    if a.kind == 'inv':
        return inverse(substitute(a.args[0], f))
    if a.kind == 'ind':
        return _mk_ind(a.name, tuple(substitute(x, f) if isinstance(x, Expr) else x for x in a.args))
    if a.kind == 'at':
        return restrict(subst_atom(a.args[0], f), a.args[1])
    return atom_expr(a)


def all_atoms(e, seen=None):
    """All atoms reachable, also inside arguments."""
    if seen is None:
        seen = set()
    for a in e.atoms():
        _walk_atom(a, seen)
    return seen


def rank_local(e):
    """Atoms whose value differs between MPI ranks, outside reductions."""
    out, seen = set(), set()

    def walk(x):
        for a in x.atoms():
            if a in seen:
                continue
            seen.add(a)
            if a.kind == 'fun' and isinstance(a.name, str) and a.name.startswith('mpi_'):
                continue
            if a.kind == 'sym' and 'local' in a.flags:
                out.add(a)
            for y in a.args:
                if isinstance(y, Expr):
                    walk(y)
    walk(e)
    return out


def _walk_atom(a, seen):
    if a in seen:
        return
    seen.add(a)
    for x in a.args:
        if isinstance(x, Expr):
            all_atoms(x, seen)
        elif isinstance(x, Atom):
            _walk_atom(x, seen)
        elif isinstance(x, tuple):
            for y in op_exprs(x):
                all_atoms(y, seen)


# ----------------------------------------------------------------- printing
def _opname(op):
    return op if isinstance(op, str) else str(op)


def atom_str(a):
    if a._s is None:
        if a.kind == 'sym':
            s = a.name
        elif a.kind == 'fun':
            s = '%s(%s)' % (a.name, ', '.join(str(x) for x in a.args))
        elif a.kind == 'lin':
            s = '%s{%s}' % (_opname(a.args[0]), a.args[2])
        elif a.kind == 'inv':
            s = '1/(%s)' % (a.args[0],)
        elif a.kind == 'ind':
            s = '[%s %s]' % (a.name, ', '.join(str(x) for x in a.args))
        elif a.kind == 'reg':
            s = '<%s>' % ','.join('%s@%s' % (ix, ax) for ax, ix in a.name)
        elif a.kind == 'at':
            s = '%s|%s' % (a.args[0], ','.join('%s@%s' % (ix, ax) for ax, ix in a.args[1]))
        else:
            s = a.kind
        a._s = s
    return a._s


def expr_str(e, limit=400):
    if not e.t:
        return '0'
    parts = []
    for m, c in sorted(e.t.items()):
        fs = []
        for i, ex in m:
            s = atom_str(_BYID[i])
            fs.append(s if ex == 1 else '%s^%s' % (s, ex))
        cs = str(c)
        if fs and c == 1:
            parts.append('*'.join(fs))
        elif fs and c == -1:
            parts.append('-' + '*'.join(fs))
        else:
            parts.append('*'.join([cs] + fs))
    s = ' + '.join(parts).replace('+ -', '- ')
    return s


def short(e, n=300):
    s = str(e)
    return s if len(s) <= n else s[:n] + '...'
