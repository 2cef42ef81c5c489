"""Cython source -> Python syntax tree (line numbers kept), with type records.

Only the constructs of the repository's kernels are needed: typed signatures,
typed local declarations, memoryviews, nogil blocks, C casts, address-of."""
import ast
import re

CTYPES = ('np.ndarray', 'real_t', 'complex_t', 'int', 'unsigned int', 'float', 'double', 'long', 'bint',
          'size_t', 'object', 'list', 'tuple', 'dict', 'str', 'void', 'np.int_t', 'np.int64_t', 'np.float64_t',
          'np.float32_t', 'np.complex128_t', 'np.complex64_t', 'unsigned long', 'unsigned', 'Py_ssize_t', 'T')


def _strip_comment(line):
    out = []
    q = None
    i = 0
    while i < len(line):
        ch = line[i]
        if q:
            out.append(ch)
            if ch == '\\':
                if i+1 < len(line):
                    out.append(line[i+1])
                    i += 1
            elif ch == q:
                q = None
        elif ch in '"\'':
            q = ch
            out.append(ch)
        elif ch == '#':
            break
        else:
            out.append(ch)
        i += 1
    return ''.join(out).rstrip()


def split_top(s, sep=','):
    out, depth, cur = [], 0, ''
    for ch in s:
        if ch in '([{':
            depth += 1
        elif ch in ')]}':
            depth -= 1
        if ch == sep and depth == 0:
            out.append(cur)
            cur = ''
        else:
            cur += ch
    if cur.strip():
        out.append(cur)
    return [x.strip() for x in out]


def split_eq(s):
    depth = 0
    for i, ch in enumerate(s):
        if ch in '([{':
            depth += 1
        elif ch in ')]}':
            depth -= 1
        elif ch == '=' and depth == 0 and s[i+1:i+2] != '=' and s[i-1:i] not in '=<>!+-*/':
            return s[:i].strip(), s[i+1:].strip()
    return s.strip(), None


def parse_typed_name(s):
    """'np.ndarray[real_t, ndim=3] kx' -> (type, 'kx'); untyped -> (None, name)."""
    m = re.match(r'^(.*?)([A-Za-z_]\w*)$', s.strip(), re.S)
    if not m:
        return None, s.strip()
    t = m.group(1).strip()
    return (t or None), m.group(2)


CAST = re.compile(r'<\s*(?:unsigned\s+)?[A-Za-z_][\w\.]*\s*(?:\[[:,\s\d]*\])?\s*\**\s*>(?=\s*[\w(&])')


def fix_expr(s):
    s = re.sub(r'\bxrange\b', 'range', s)
    s = CAST.sub('', s)
    # &v[0, j, k]
    while True:
        m = re.search(r'(?<![&\w\])])\s?&\s*([A-Za-z_]\w*)\[', s)
        if not m:
            break
        i = m.end()
        depth = 1
        while i < len(s) and depth:
            if s[i] == '[':
                depth += 1
            elif s[i] == ']':
                depth -= 1
            i += 1
        inner = s[m.end():i-1]
        s = s[:m.start()] + ' __cy_addr__(%s, (%s,))' % (m.group(1), inner) + s[i:]
    return s


DECL = re.compile(r'^(?P<type>(?:np\.ndarray\s*\[[^\]]*\]|vector\s*\[[^\]]*\]|unsigned\s+int|unsigned\s+long|'
                  r'[A-Za-z_][\w\.]*(?:\s*\[[:,\s\d]*\])?(?:\s*\*+)?))\s+(?P<rest>\**\s*[A-Za-z_].*)$', re.S)


def decl_lines(body, record):
    """Translate the text after 'cdef' of a variable declaration."""
    m = DECL.match(body)
    if not m:
        return 'pass'
    ty = re.sub(r'\s+', ' ', m.group('type').strip())
    out = []
    for item in split_top(m.group('rest')):
        name, val = split_eq(item)
        if name.startswith('*'):
            name = name.lstrip('* ')
            ty1 = ty + '*'
        else:
            ty1 = ty
        name = re.sub(r'\[.*$', '', name).strip()
        record[name] = ty1
        if ty.startswith('vector'):
            out.append('%s = __cy_vector__(%s)' % (name, ''))
        elif val is not None:
            val = fix_expr(val)
            if ty1.startswith('np.ndarray') or '[' in ty1:
                out.append('%s = __cy_typed__(%r, %s)' % (name, ty1, val))
            else:
                out.append('%s = __cy_scalar__(%r, %s)' % (name, ty1, val))
    return '; '.join(out) if out else 'pass'


def parse(src, path=''):
    raw = src.split('\n')
    out = []
    n = 0
    fused = {}
    funcs = []          # (lineno, types)
    locs = {}           # function line -> record of local types
    cur = None
    module_rec = {}
    cdef_funcs = set()
    in_triple = None
    while n < len(raw):
        line = raw[n]
        if in_triple:
            out.append(line)
            if in_triple in line:
                in_triple = None
            n += 1
            continue
        code = _strip_comment(line)
        st = code.strip()
        ind = code[:len(code) - len(code.lstrip())]
        for q in ('"""', "'''"):
            if line.count(q) % 2 == 1:
                in_triple = q
        if in_triple:
            out.append(line)
            n += 1
            continue
        if st.startswith(('"""', "'''")):
            out.append(line)
            n += 1
            continue
        if re.match(r'^\{\d*\}$', st):
            out.append('')
            n += 1
            continue
        if re.match(r'^(ctypedef|cdef)\s+fused\b', st):
            name = st.split()[-1].rstrip(':')
            out.append('')
            n += 1
            base = len(ind)
            fused[name] = []
            while n < len(raw) and (not raw[n].strip() or len(raw[n]) - len(raw[n].lstrip()) > base):
                if raw[n].strip():
                    fused[name].append(_strip_comment(raw[n]).strip())
                out.append('')
                n += 1
            continue
        if st.startswith('ctypedef'):
            p = st.split()
            fused[p[-1]] = [' '.join(p[1:-1])]
            out.append('')
            n += 1
            continue
        if st.startswith('cimport') or re.match(r'^from\s+\S+\s+cimport\b', st):
            s2 = st
            if st.startswith('cimport'):
                s2 = st.replace('cimport', 'import', 1)
            else:
                s2 = re.sub(r'\bcimport\b', 'import', st, 1)
            if 'cython' in s2.split() and s2.startswith('import'):
                s2 = 'import cython'
            out.append(ind + s2)
            n += 1
            continue
        if st.startswith(('cdef extern', 'cdef class')):
            out.append(ind + 'if False:')
            n += 1
            continue
        mfun = re.match(r'^(?:def|cpdef|cdef)\b[^=]*?\b([A-Za-z_]\w*)\s*\(', st)
        isdecl = st.startswith('cdef') and not mfun
        if mfun and (st.startswith('def') or st.startswith(('cdef', 'cpdef'))):
            # gather the header
            k = n
            text = code
            depth = text.count('(') - text.count(')')
            while depth > 0:
                k += 1
                nx = _strip_comment(raw[k])
                text += ' ' + nx.strip()
                depth += nx.count('(') - nx.count(')')
            while not text.rstrip().endswith(':') and k + 1 < len(raw):
                k += 1
                text += ' ' + _strip_comment(raw[k]).strip()
            i0 = text.index('(', text.index(mfun.group(1)))
            # matching paren
            d, i = 0, i0
            while True:
                if text[i] in '([':
                    d += 1
                elif text[i] in ')]':
                    d -= 1
                    if d == 0:
                        break
                i += 1
            params = split_top(text[i0+1:i])
            types, names = {}, []
            for p in params:
                nm, dflt = split_eq(p)
                if nm.startswith('*'):
                    names.append(nm)
                    continue
                ty, nm = parse_typed_name(nm)
                if ty:
                    types[nm] = re.sub(r'\s+', ' ', ty)
                names.append(nm if dflt is None else '%s=%s' % (nm, fix_expr(dflt)))
            name = mfun.group(1)
            out.append('%sdef %s(%s):' % (ind, name, ', '.join(names)))
            for _ in range(k - n):
                out.append('')
            funcs.append((n + 1, types, st.startswith('cdef')))
            cur = locs.setdefault(n + 1, {})
            cur.update({a: b for a, b in types.items() if '[' not in b})
            n = k + 1
            continue
        if st == 'cdef:' or re.match(r'^cdef\s*(nogil)?\s*:$', st):
            out.append(ind + 'if True:')
            n += 1
            base = len(ind)
            while n < len(raw) and (not raw[n].strip() or len(raw[n]) - len(raw[n].lstrip()) > base):
                l2 = _strip_comment(raw[n])
                if l2.strip():
                    i2 = l2[:len(l2) - len(l2.lstrip())]
                    out.append(i2 + decl_lines(l2.strip(), cur if cur is not None else module_rec))
                else:
                    out.append('')
                n += 1
            continue
        if isdecl:
            k = n
            text = st
            while text.count('(') + text.count('[') > text.count(')') + text.count(']'):
                k += 1
                text += ' ' + _strip_comment(raw[k]).strip()
            rec = cur if (cur is not None and ind) else module_rec
            out.append(ind + decl_lines(text[4:].strip(), rec))
            for _ in range(k - n):
                out.append('')
            n = k + 1
            continue
        if re.match(r'^with\s+(nogil|gil)\s*:$', st):
            out.append(ind + 'if True:')
            n += 1
            continue
        if not ind and st and not st.startswith(('@', 'def', '#', ')')):
            cur = None
        out.append(ind + fix_expr(st) if st else '')
        n += 1
    text = '\n'.join(out) + '\n'
    tree = ast.parse(text, path)
    byline = {f[0]: f for f in funcs}
    for nd in ast.walk(tree):
        if isinstance(nd, ast.FunctionDef):
            f = byline.get(nd.lineno)
            nd.c_types = f[1] if f else {}
            nd.c_locals = locs.get(nd.lineno, {})
            nd.c_fused = fused
            nd.c_cdef = bool(f and f[2])
    tree.c_fused = fused
    tree.cython = True
    return tree


# ------------------------------------------------------------------- types
NP = {'np.float64_t': 'f8', 'np.float32_t': 'f4', 'np.float_t': 'f8', 'np.complex128_t': 'c16', 'np.complex64_t': 'c8',
      'np.int_t': 'i8', 'np.int64_t': 'i8', 'np.int32_t': 'i4', 'double': 'f8', 'float': 'f4', 'np.uint8_t': 'u1',
      'double complex': 'c16', 'float complex': 'c8', 'long': 'i8', 'int': 'i4'}


def resolve(base, fused, prec):
    """Set of dtypes a buffer element type accepts."""
    base = base.strip()
    if base in fused:
        r = set()
        for b in fused[base]:
            r |= resolve(b, fused, prec)
        return r
    if base == 'real_t':
        return {'f4'} if prec == 'single' else {'f8'}
    if base == 'complex_t':
        return {'c8'} if prec == 'single' else {'c16'}
    if base in NP:
        return {NP[base]}
    return set()


def buffer_type(ty):
    """(element type, ndim) of a buffer declaration, else None."""
    m = re.match(r'^np\.ndarray\s*\[(.*)\]$', ty)
    if m:
        ps = split_top(m.group(1))
        nd = 1
        for p in ps[1:]:
            k, v = split_eq(p)
            if k == 'ndim':
                nd = int(v)
        return ps[0], nd
    m = re.match(r'^([\w\.]+)\s*\[([:,\s\d]*)\]$', ty)
    if m:
        return m.group(1), len(split_top(m.group(2)))
    return None


def precision_of(modname):
    return 'single' if 'single' in modname.split('.')[-1] else 'double'


def check_value(interp, ty, v, fused, prec, what, node):
    """Raise what Cython raises on passing v to a parameter of type ty."""
    from .values import AbsRaise, Arr, AList, Top, to_expr, Obj
    from . import expr as X
    if isinstance(v, Top):
        return
    bt = buffer_type(ty)
    if bt is not None:
        if v is None:
            return
        if not isinstance(v, Arr):
            raise AbsRaise('TypeError', '%s: %s is not a buffer' % (what, type(v).__name__), node)
        nd = len(v.shape)
        if nd != bt[1]:
            raise AbsRaise('ValueError', '%s: Buffer has wrong number of dimensions (expected %d, got %d)' % (
                what, bt[1], nd), node)
        acc = resolve(bt[0], fused, prec)
        if acc and v.dtype in ('f4', 'f8', 'c8', 'c16', 'i8') and v.dtype not in acc:
            raise AbsRaise('ValueError', "%s: Buffer dtype mismatch, expected '%s' but got %s" % (what, bt[0], v.dtype), node)
        return
    if ty == 'list' and not isinstance(v, list) and v is not None:
        raise AbsRaise('TypeError', '%s: expected list, got %s' % (what, type(v).__name__), node)
    if ty in ('int', 'unsigned int', 'long', 'np.int_t', 'real_t', 'double', 'float'):
        if v is None or isinstance(v, (str, list, dict)) or isinstance(v, Obj) or (isinstance(v, Arr) and (v.size() > 1 or any(
                not (d == 1) for d in v.dims))):
            raise AbsRaise('TypeError', '%s: must be a number, got %s' % (what, type(v).__name__), node)
        e = to_expr(v)
        if e is not None and X.I_ATOM in e.atoms():
            raise AbsRaise('TypeError', '%s: cannot convert complex to %s' % (what, ty), node)


INTS = ('int', 'unsigned int', 'long', 'unsigned long', 'short', 'char', 'Py_ssize_t', 'size_t', 'np.int_t', 'np.int64_t',
        'np.int32_t', 'np.uint8_t', 'np.intp_t')


def scalar_store(interp, ty, v, fr):
    """Value held by a C scalar of the declared type after an assignment."""
    from .values import to_expr, simp, Expr
    from fractions import Fraction
    from . import expr as X
    if not isinstance(v, (Expr, Fraction, float)):
        return v
    if ty in INTS:
        if isinstance(simp(v), int):
            return v
        ee = to_expr(v)
        if all('index' in a.flags or 'dim' in a.flags or 'int' in a.flags or a.kind in ('ind', 'reg') or
               a.kind == 'fun' and a.name in ('floordiv', 'trunc') for a in ee.atoms()) and \
                all(c.denominator == 1 for c in coefficients(ee)):
            return v
        return X.func('trunc', ee, pointwise=True)
    if '[' in ty or '*' in ty:
        return v
    fused = getattr(fr.module.tree, 'c_fused', {})
    r = resolve(ty, fused, precision_of(fr.module.name))
    if r and r <= {'f4', 'c8'}:
        return interp.narrow(v)
    return v


def coefficients(e):
    from fractions import Fraction
    return [c if isinstance(c, Fraction) else Fraction(c) for c in e.t.values()
            if isinstance(c, (int, Fraction))]


def check_typed_args(interp, f, vals, node):
    fused = getattr(f.node, 'c_fused', {})
    prec = precision_of(f.module.name)
    for name, ty in f.node.c_types.items():
        if name in vals:
            if getattr(f.node, 'c_cdef', False) and ty.endswith('*'):
                continue
            check_value(interp, ty, vals[name], fused, prec, "%s() argument '%s'" % (f.name, name), node)
            vals[name] = coerce(interp, ty, vals[name], f)


def coerce(interp, ty, v, f):
    """Scalar conversion on entry."""
    if ty in INTS or buffer_type(ty) is not None:
        return v
    return scalar_store(interp, ty, v, f)


# ----------------------------------------------------------------- pythran
PY = {'float64': 'f8', 'float32': 'f4', 'complex128': 'c16', 'complex64': 'c8', 'int64': 'i8', 'int': 'i8', 'int32': 'i4'}


def pythran_exports(src, tree):
    """Attach the exported signatures to the functions of a Pythran module."""
    ex = {}
    for m in re.finditer(r'^#\s*pythran\s+export\s+(\w+)\s*\((.*)\)\s*$', src, re.M):
        sig = []
        for p in split_top(m.group(2)):
            a = re.match(r'^(\w+)\s*(\[[:,\s]*\])?$', p)
            sig.append((PY.get(a.group(1)), len(split_top(a.group(2)[1:-1])) if a.group(2) else 0) if a else None)
        ex.setdefault(m.group(1), []).append(sig)
    if ex:
        for nd in tree.body:
            if isinstance(nd, ast.FunctionDef) and nd.name in ex:
                nd.p_exports = ex[nd.name]


def check_exports(interp, f, vals, node):
    from .values import AbsRaise, Arr
    names = [a.arg for a in f.node.args.args]
    got = []
    for n in names:
        v = vals.get(n)
        got.append((v.dtype, len(v.shape)) if isinstance(v, Arr) else None)

    def fits(sig):
        if len(sig) != len(got):
            return False
        for s, g in zip(sig, got):
            if s is None or g is None:
                continue
            if s[1] != g[1] or (s[0] and g[0] in PY.values() and s[0] != g[0]):
                return False
        return True
    if not any(fits(s) for s in f.node.p_exports):
        raise AbsRaise('TypeError', 'Invalid call to pythranized function %s(%s)' % (
            f.name, ', '.join('%s[%d]' % g if g else '?' for g in got)), node)
