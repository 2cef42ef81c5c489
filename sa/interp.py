"""Abstract interpreter for the Python subset used by spectralDNS.

Walks the syntax tree of the *current* source and propagates abstract values
(sa.expr polynomials for numbers and fields, concrete Python structure for
containers, functions and modules).  Nothing of the repository is imported or
executed.  Control flow on abstract conditions is joined (gated joins), loops
over symbolic array extents are evaluated once at the generic index, calls are
followed into the callee."""
import ast
import os
import sys
import threading
from fractions import Fraction
from . import expr as X
from .expr import Expr, lift
from .values import *  # noqa
from . import cyx

MAXDEPTH = 60
threading.stack_size(64 << 20)


class GenKill(BaseException):
    pass


class GenRun(object):
    """Runs the body of a generator function as a coroutine of the interpreter
    (own thread, strict hand-over: exactly one of the two sides is running)."""
    def __init__(self, it, frame, loc, body):
        self.it, self.body = it, body
        self.frames, self.locs, self.ctrl = [frame], [loc], []
        self.thread = None
        self.done = False
        self.go, self.back = threading.Semaphore(0), threading.Semaphore(0)
        self.out = self.exc = self.sent = None
        self.kill = False
        self.thrown = None
        frame.gen = self

    def __iter__(self):
        return self

    def __next__(self):
        return self.resume(None)

    def resume(self, sent):
        if self.done:
            raise StopIteration
        it = self.it
        self.sent = sent
        self.base = (len(it.frames), len(it.locs), len(it.ctrl))
        it.frames.extend(self.frames)
        it.locs.extend(self.locs)
        it.ctrl.extend(self.ctrl)
        if self.thread is None:
            self.thread = threading.Thread(target=self.main, daemon=True)
            self.thread.start()
        else:
            self.go.release()
        self.back.acquire()
        b = self.base
        self.frames, self.locs, self.ctrl = it.frames[b[0]:], it.locs[b[1]:], it.ctrl[b[2]:]
        del it.frames[b[0]:]
        del it.locs[b[1]:]
        del it.ctrl[b[2]:]
        if self.exc is not None:
            e, self.exc = self.exc, None
            raise e
        if self.done:
            raise StopIteration
        v, self.out = self.out, None
        return v

    def main(self):
        try:
            self.body()
        except GenKill:
            pass
        except BaseException as e:      # handed to the consumer
            self.exc = e
        self.done = True
        self.back.release()

    def emit(self, v):
        """Called in the generator's thread by a yield expression."""
        self.out = v
        self.back.release()
        self.go.acquire()
        if self.kill:
            raise GenKill()
        if self.thrown is not None:
            e, self.thrown = self.thrown, None
            raise e
        v, self.sent = self.sent, None
        return v

    def throw(self, e):
        self.thrown = e
        return self.resume(None)

    def close(self):
        if self.thread is None or self.done:
            self.done = True
            return
        self.kill = True
        try:
            self.resume(None)
        except StopIteration:
            pass


class GenHandle(object):
    """What the program holds: dropping it ends the coroutine."""
    def __init__(self, run):
        self.run = run

    def __iter__(self):
        return self

    def __next__(self):
        return next(self.run)

    def __del__(self):
        try:
            self.run.close()
        except Exception:
            pass


class Frame(object):
    def __init__(self, module, chain, func=None):
        self.module = module
        self.vars = ADict()
        self.chain = chain            # enclosing function variable dicts
        self.globals = set()
        self.nonlocals = set()
        self.func = func
        self.yields = None
        self.ctypes = {}


def _live(v):
    """Iteration over a list sees elements appended meanwhile."""
    i = 0
    while i < len(v):
        yield v[i]
        i += 1


class Event(object):
    def __init__(self, kind, data, loc, ctrl, stack=()):
        self.kind, self.data, self.loc, self.ctrl, self.stack = kind, data, loc, ctrl, stack

    def __repr__(self):
        return 'Event(%s,%s,%s)' % (self.kind, self.data, self.loc)


class Repo(object):
    """Source provider: module name -> path/AST under the repository root."""
    def __init__(self, root):
        self.root = root
        self.trees = {}
        self.read = set()

    def find(self, name):
        p = os.path.join(self.root, *name.split('.'))
        for c in (p + '.py', os.path.join(p, '__init__.py')):
            if os.path.isfile(c):
                return c
        # Cython sources (templates cython_<precision>_<x> come from cython_<x>.in)
        d, b = os.path.split(p)
        if b.startswith(('cython_double_', 'cython_single_')):
            t = os.path.join(d, 'cython_' + b.split('_', 2)[2] + '.in')
            if os.path.isfile(t):
                return t
        if os.path.isfile(p + '.pyx'):
            return p + '.pyx'
        return None

    def isdir(self, name):
        return os.path.isdir(os.path.join(self.root, *name.split('.')))

    def tree(self, path):
        if path not in self.trees:
            with open(path) as f:
                src = f.read()
            self.read.add(path)
            if path.endswith('.in') or path.endswith('.pyx'):
                self.trees[path] = cyx.parse(src, path)
            else:
                self.trees[path] = ast.parse(src, path)
                if 'pythran' in src:
                    cyx.pythran_exports(src, self.trees[path])
        return self.trees[path]

    def rel(self, path):
        return os.path.relpath(path, self.root)


REPO = None


def get_repo():
    global REPO
    if REPO is None:
        REPO = Repo(os.environ.get('VERIF_REPO', '/repo'))
    return REPO


def _exc_matches(raised, name):
    if name in ('Exception', 'BaseException', raised):
        return True
    hier = {'KeyError': ('LookupError',), 'IndexError': ('LookupError',),
            'ModuleNotFoundError': ('ImportError',), 'NotImplementedError': ('RuntimeError',),
            'UnboundLocalError': ('NameError',)}
    return name in hier.get(raised, ())


#: attributes of an array that do not write to it
READERS = {'shape', 'size', 'ndim', 'dtype', 'nbytes', 'itemsize', 'copy', 'sum', 'prod', 'max', 'min', 'mean', 'std', 'var',
           'astype', 'conj', 'conjugate', 'tolist', 'item', 'any', 'all', 'dot', 'argmax', 'argmin', 'round', 'cumsum',
           'tobytes', 'nonzero', 'flags', 'strides'}


class Interp(object):
    def __init__(self, repo=None, models=None):
        from . import models as M
        self.repo = repo or get_repo()
        self.modules = {}
        self.overrides = {}           # module name -> value (pre-modelled modules)
        self.events = []
        self.notes = []               # unknown constructs met
        self.frames = []
        self.locs = []
        self.ctrl = []
        self.assume = {}
        self.models = M
        self.rank = 0
        self.loopvars = []
        self.visited = {}             # (path, funcname) -> count of interpretations
        self.nstmt = 0
        self.config = {}
        self.uid = 0
        self.loop_backs = []
        self.suspects = []            # definite errors seen inside (index errors...)
        self.builtins = M.make_builtins(self)
        self.path_stmts = set()
        self.opaque_calls = {}        # hooks: qualified repo function -> Builtin
        self.sum_hook = None

    # ------------------------------------------------------------- utilities
    def fresh(self, base):
        self.uid += 1
        return '%s_%d' % (base, self.uid)

    def loc(self, node=None):
        m = self.frames[-1].module if self.frames else None
        path = self.repo.rel(m.path) if m is not None and m.path else '?'
        ln = getattr(node, 'lineno', None)
        if ln is None and self.locs:
            ln = self.locs[-1]
        fn = self.frames[-1].func.name if self.frames and self.frames[-1].func else '<module>'
        return '%s:%s (%s)' % (path, ln, fn)

    def event(self, kind, data, node=None):
        st = tuple(f.func.name for f in self.frames if f.func is not None)
        self.events.append(Event(kind, data, self.loc(node), tuple(self.ctrl), st))

    def note(self, msg, node=None):
        self.notes.append('%s: %s' % (self.loc(node), msg))

    def top(self, why, node=None):
        self.note(why, node)
        return Top('%s at %s' % (why, self.loc(node)))

    # -------------------------------------------------------------- modules
    def import_module(self, name):
        if name in self.overrides:
            return self.overrides[name]
        if name in self.modules:
            return self.modules[name]
        root = name.split('.')[0]
        if root not in self.repo_roots():
            return Ext(name)
        path = self.repo.find(name)
        if path is None:
            if self.repo.isdir(name):
                m = Module(name, None, None)
                self.modules[name] = m
                return m
            raise AbsRaise('ModuleNotFoundError', "No module named '%s'" % name)
        m = Module(name, path, self.repo.tree(path))
        self.modules[name] = m
        m.env['__name__'] = name
        m.env['__file__'] = path
        if '.' in name:
            parent = self.import_module(name.rsplit('.', 1)[0])
        self.exec_module(m)
        if '.' in name and isinstance(parent, Module):
            parent.env[name.rsplit('.', 1)[1]] = m
        return m

    def repo_roots(self):
        return ('spectralDNS',)

    def exec_module(self, m):
        fr = Frame(m, [])
        fr.vars = m.env
        self.frames.append(fr)
        self.locs.append(None)
        try:
            self.exec_block(m.tree.body, fr)
        finally:
            self.frames.pop()
            self.locs.pop()

    # ------------------------------------------------------------ statements
    def exec_block(self, stmts, fr):
        for k, s in enumerate(stmts):
            sig = self.exec_stmt(s, fr, stmts[k+1:])
            if sig is not None:
                if sig[0] == 'tail':      # remainder already executed
                    return sig[1]
                return sig
        return None

    def exec_stmt(self, s, fr, rest):
        self.nstmt += 1
        if fr.module is not None:
            self.path_stmts.add((fr.module.path, s.lineno))
        if self.locs:
            self.locs[-1] = s.lineno
        f = getattr(self, 'st_' + s.__class__.__name__, None)
        if f is None:
            self.note('statement kind %s not modelled' % s.__class__.__name__, s)
            return None
        try:
            return f(s, fr, rest)
        except AbsRaise as e:
            if getattr(e, 'loc', None) is None:
                e.loc = self.loc(s)
            raise

    def st_Expr(self, s, fr, rest):
        self.ev(s.value, fr)

    def st_Pass(self, s, fr, rest):
        pass

    def st_Global(self, s, fr, rest):
        fr.globals.update(s.names)

    def st_Nonlocal(self, s, fr, rest):
        fr.nonlocals.update(s.names)

    def st_Import(self, s, fr, rest):
        for a in s.names:
            m = self.import_module(a.name)
            if a.asname:
                self.assign_name(a.asname, m, fr)
            else:
                rootname = a.name.split('.')[0]
                self.assign_name(rootname, self.import_module(rootname), fr)

    def st_ImportFrom(self, s, fr, rest):
        base = s.module or ''
        if s.level:
            parts = fr.module.name.split('.')
            is_pkg = fr.module.path and os.path.basename(fr.module.path) == '__init__.py'
            drop = s.level - (1 if is_pkg else 0)
            if drop:
                parts = parts[:-drop]
            base = '.'.join(parts + ([base] if base else []))
        m = self.import_module(base)
        for a in s.names:
            if a.name == '*':
                if isinstance(m, Module):
                    names = m.env.get('__all__')
                    if names is None:
                        names = [n for n in m.env if not n.startswith('_')]
                    for n in names:
                        self.assign_name(n, m.env[n], fr)
                else:
                    for n, v in self.models.star_names(m).items():
                        self.assign_name(n, v, fr)
                continue
            v = self.from_import(m, base, a.name)
            self.assign_name(a.asname or a.name, v, fr)

    def from_import(self, m, base, name):
        if isinstance(m, Module):
            if name in m.env:
                return m.env[name]
            try:
                return self.import_module(base + '.' + name)
            except AbsRaise as e:
                if e.name == 'ModuleNotFoundError':
                    raise AbsRaise('ImportError', "cannot import name '%s' from '%s'" % (name, base))
                raise
        if isinstance(m, Ext):
            return self.get_attr(m, name, None)
        return self.get_attr(m, name, None)

    def st_FunctionDef(self, s, fr, rest):
        defaults = [self.ev(d, fr) for d in s.args.defaults]
        kwd = [None if d is None else self.ev(d, fr) for d in s.args.kw_defaults]
        chain = fr.chain if fr.vars is fr.module.env else [fr.vars] + fr.chain
        v = PyFunc(s, fr.module, chain, defaults, kwd, s.name, fr_cls(fr))
        if any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in walk_own(s)):
            v.attrs['__isgen__'] = True
        for d in reversed(s.decorator_list):
            dv = self.ev(d, fr)
            v = self.call(dv, [v], {}, s)
        self.assign_name(s.name, v, fr)

    st_AsyncFunctionDef = st_FunctionDef

    def st_ClassDef(self, s, fr, rest):
        bases = [self.ev(b, fr) for b in s.bases]
        sub = Frame(fr.module, fr.chain if fr.vars is fr.module.env else [fr.vars] + fr.chain)
        sub.vars = ADict()
        sub.func = None
        c = ClassObj(s.name, bases, {}, fr.module)
        c.body = s.body
        sub.cls = c
        self.frames.append(sub)
        try:
            self.exec_block(s.body, sub)
        finally:
            self.frames.pop()
        c.attrs.update(sub.vars)
        v = c
        for d in reversed(s.decorator_list):
            v = self.call(self.ev(d, fr), [v], {}, s)
        self.assign_name(s.name, v, fr)

    def st_Return(self, s, fr, rest):
        return ('ret', None if s.value is None else self.ev(s.value, fr))

    def st_Break(self, s, fr, rest):
        return ('brk',)

    def st_Continue(self, s, fr, rest):
        return ('cont',)

    def st_Delete(self, s, fr, rest):
        for t in s.targets:
            if isinstance(t, ast.Name):
                if t.id in fr.vars:
                    del fr.vars[t.id]
                else:
                    raise AbsRaise('NameError', t.id, s)
            elif isinstance(t, ast.Attribute):
                o = self.ev(t.value, fr)
                if isinstance(o, Obj):
                    if t.attr not in o.attrs:
                        raise AbsRaise('AttributeError', t.attr, s)
                    del o.attrs[t.attr]
                elif isinstance(o, Module):
                    o.env.pop(t.attr, None)
            elif isinstance(t, ast.Subscript):
                o = self.ev(t.value, fr)
                k = self.ev_index(t.slice, fr)
                if isinstance(o, Obj):
                    o = o.attrs
                if isinstance(o, dict):
                    if k in o:
                        del o[k]
                    else:
                        raise AbsRaise('KeyError', str(k), s)
                elif isinstance(o, list) and isinstance(k, (int, slice)):
                    del o[k]
                else:
                    self.note('del of unknown subscript', s)

    def st_Raise(self, s, fr, rest):
        name, msg = 'Exception', ''
        if s.exc is not None:
            v = self.ev(s.exc, fr)
            if isinstance(v, Ext):
                name = v.q.split('.')[-1]
            elif isinstance(v, Obj):
                name = v.cls if isinstance(v.cls, str) else v.cls.name
                msg = v.attrs.get('msg', '')
            elif isinstance(v, ClassObj):
                name = v.name
            if name == 'SystemExit':
                self.event('exit', list(v.attrs.get('args', ())) if isinstance(v, Obj) else [], s)
        raise AbsRaise(name, msg, s)

    def st_Assert(self, s, fr, rest):
        c = self.truth(self.ev(s.test, fr), s)
        if c is False:
            raise AbsRaise('AssertionError', ast.unparse(s.test), s)
        if isinstance(c, AbsBool):
            self.do_assume(c.e, True)

    def st_With(self, s, fr, rest):
        return self.with_items(s, list(s.items), fr)

    st_AsyncWith = st_With

    def with_items(self, s, items, fr):
        if not items:
            return self.exec_block(s.body, fr)
        w = items[0]
        v = self.ev(w.context_expr, fr)
        self.event('with', v, s)
        ent, ex = self.models.context_manager(self, v, s)
        x = ent()
        if w.optional_vars is not None:
            self.assign(w.optional_vars, x, fr)
        marks = (len(self.frames), len(self.locs), len(self.ctrl))
        try:
            sig = self.with_items(s, items[1:], fr)
        except AbsRaise as e:
            del self.frames[marks[0]:]
            del self.locs[marks[1]:]
            del self.ctrl[marks[2]:]
            if ex(e) is True:
                return None
            raise
        ex(None)
        return sig

    def st_Try(self, s, fr, rest):
        sig = None
        depth, nl, nc = len(self.frames), len(self.locs), len(self.ctrl)
        try:
            try:
                sig = self.exec_block(s.body, fr)
                if sig is None and s.orelse:
                    sig = self.exec_block(s.orelse, fr)
            except AbsRaise as e:
                del self.frames[depth:]
                del self.locs[nl:]
                del self.ctrl[nc:]
                for h in s.handlers:
                    if h.type is None:
                        ok = True
                    else:
                        t = self.ev(h.type, fr)
                        ts = t if isinstance(t, tuple) else (t,)
                        ok = any(_exc_matches(e.name, (x.q.split('.')[-1] if isinstance(x, Ext) else
                                                       getattr(x, 'name', '?'))) for x in ts)
                    if ok:
                        if h.name:
                            fr.vars[h.name] = Obj(e.name, msg=e.msg)
                        sig = self.exec_block(h.body, fr)
                        break
                else:
                    raise
        finally:
            if s.finalbody and not isinstance(sys.exc_info()[1], (GenKill, AnalysisError)):
                del self.frames[depth:]
                del self.locs[nl:]
                del self.ctrl[nc:]
                sig2 = self.exec_block(s.finalbody, fr)
                if sig2 is not None:
                    sig = sig2
        return sig

    # assignments --------------------------------------------------------
    def st_Assign(self, s, fr, rest):
        v = self.ev(s.value, fr)
        for t in s.targets:
            self.assign(t, v, fr)

    def st_AnnAssign(self, s, fr, rest):
        if s.value is not None:
            self.assign(s.target, self.ev(s.value, fr), fr)

    def st_AugAssign(self, s, fr, rest):
        op = s.op.__class__.__name__
        v = self.ev(s.value, fr)
        t = s.target
        if isinstance(t, ast.Name):
            old = self.lookup(t.id, fr, t)
            if isinstance(old, Top):
                self.havoc(old)
            if isinstance(old, Arr):
                self.arr_inplace(old, op, v, s)
            elif isinstance(old, list) and op == 'Add':
                seq = [v] if isinstance(v, self.models.Bilinear) else self.iterate(v, s)
                if seq is None:
                    self.assign_name(t.id, self.top('list extended by unknown', s), fr)
                else:
                    old.extend(seq)
            else:
                self.assign_name(t.id, self.binop(op, old, v, s), fr)
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, fr)
            k = self.ev_index(t.slice, fr)
            if isinstance(o, Arr):
                view = self.index_arr(o, k, s)
                if isinstance(view, Arr):
                    self.arr_inplace(view, op, v, s)
                    return
                self.note('augmented assignment to unknown view', s)
                self.havoc(o)
            else:
                old = self.get_item(o, k, s)
                if isinstance(old, Arr):
                    self.arr_inplace(old, op, v, s)
                    self.set_item(o, k, old, s)
                else:
                    self.set_item(o, k, self.binop(op, old, v, s), s)
        elif isinstance(t, ast.Attribute):
            if t.attr in ('real', 'imag') and isinstance(t.value, ast.Subscript):
                old = self.get_attr(self.ev(t.value, fr), t.attr, s)
                self.assign(t, self.binop(op, old, v, s), fr)
                return
            o = self.ev(t.value, fr)
            old = self.get_attr(o, t.attr, s)
            if isinstance(old, Arr):
                self.arr_inplace(old, op, v, s)
            else:
                self.set_attr(o, t.attr, self.binop(op, old, v, s), s)

    def assign(self, t, v, fr):
        if isinstance(t, ast.Name):
            ct = fr.ctypes.get(t.id)
            if ct is not None:
                v = cyx.scalar_store(self, ct, v, fr)
            self.assign_name(t.id, v, fr)
        elif isinstance(t, (ast.Tuple, ast.List)):
            vals = self.iterate(v, t)
            if vals is None:
                for x in t.elts:
                    self.assign(x.value if isinstance(x, ast.Starred) else x, Top('unpacked'), fr)
                return
            st = [i for i, x in enumerate(t.elts) if isinstance(x, ast.Starred)]
            if st:
                i = st[0]
                nafter = len(t.elts) - i - 1
                vals = list(vals[:i]) + [AList(vals[i:len(vals)-nafter])] + list(vals[len(vals)-nafter:])
            if len(vals) != len(t.elts):
                raise AbsRaise('ValueError', 'cannot unpack %d values into %d targets' % (len(vals), len(t.elts)), t)
            for x, y in zip(t.elts, vals):
                self.assign(x.value if isinstance(x, ast.Starred) else x, y, fr)
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, fr)
            k = self.ev_index(t.slice, fr)
            self.set_item(o, k, v, t)
        elif isinstance(t, ast.Attribute):
            if t.attr in ('real', 'imag'):
                # element or array component assignment a[...].real = v
                if isinstance(t.value, ast.Subscript):
                    base = self.ev(t.value.value, fr)
                    k = self.ev_index(t.value.slice, fr)
                    view = self.index_arr(base, k, t) if isinstance(base, Arr) else None
                else:
                    view = self.ev(t.value, fr)
                if isinstance(view, Arr):
                    if t.attr == 'real':
                        new = self.elementwise(lambda o, x: X.real(x) + X.IMAG*X.imag(o), [view, v], t)
                    else:
                        new = self.elementwise(lambda o, x: X.real(o) + X.IMAG*X.real(x), [view, v], t)
                    self.arr_set(view, new, t)
                    return
            o = self.ev(t.value, fr)
            self.set_attr(o, t.attr, v, t)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, fr)

    def assign_name(self, n, v, fr):
        if n in fr.globals:
            fr.module.env[n] = v
            return
        if n in fr.nonlocals:
            for c in fr.chain:
                if n in c:
                    c[n] = v
                    return
        fr.vars[n] = v

    # control flow ---------------------------------------------------------
    def st_If(self, s, fr, rest):
        c = self.truth(self.ev(s.test, fr), s)
        if c is True:
            return self.exec_block(s.body, fr)
        if c is False:
            return self.exec_block(s.orelse, fr)
        return self.abstract_if(c, s.body, s.orelse, rest, fr, s)

    def abstract_if(self, c, body, orelse, rest, fr, node):
        """Join of both branches; if a branch can leave the block, the rest of
        the block is evaluated inside each branch."""
        if isinstance(c, Top):
            ce = X.sym(self.fresh('cond_unknown'), (), ('real', 'idem', 'unknown'))
        else:
            ce = c.e
        esc = has_escape(body) or has_escape(orelse)
        a_body = list(body) + (list(rest) if esc else [])
        b_body = list(orelse) + (list(rest) if esc else [])
        pre = self.snapshot(fr)
        outs = []
        for val, blk in ((True, a_body), (False, b_body)):
            self.restore(pre, fr)
            saved = dict(self.assume)
            self.do_assume(ce, val)
            self.ctrl.append((ce, val, self.loc(node)))
            nfr, nl, nc = len(self.frames), len(self.locs), len(self.ctrl)
            try:
                sig = self.exec_block(blk, fr)
                outs.append((sig, self.snapshot(fr), None))
            except AbsRaise as e:
                del self.frames[nfr:]
                del self.locs[nl:]
                del self.ctrl[nc:]
                outs.append((None, None, e))
            finally:
                self.ctrl.pop()
                self.assume = saved
        (sa, ha, ea), (sb, hb, eb) = outs
        if ea is not None and eb is not None:
            self.restore(pre, fr)
            raise ea
        if ea is not None or eb is not None:
            sig, h = (sb, hb) if ea is not None else (sa, ha)
            self.event('raise-branch', (ea or eb), node)
            self.restore(h, fr)
            self.do_assume(ce, ea is None)
            if esc:
                return ('tail', sig)
            return sig
        # loop back-edges leave the normal flow
        if (sa and sa[0] == 'cont') != (sb and sb[0] == 'cont') and self._abstract_loop():
            back, h = ((sa, ha) if (sa and sa[0] == 'cont') else (sb, hb))
            other, ho = ((sb, hb) if (sa and sa[0] == 'cont') else (sa, ha))
            self.restore(h, fr)
            self.loop_backs.append((self.loc(node), ce, self.capture_back(fr)))
            self.restore(ho, fr)
            return ('tail', other) if esc else other
        self.merge(ce, ha, hb, fr)
        sig = self.merge_sig(ce, sa, sb, node)
        if esc:
            return ('tail', sig)
        return sig

    def _abstract_loop(self):
        return getattr(self, 'abstract_while', 0) > 0

    def capture_back(self, fr):
        return (dict(fr.vars), {s: list(s.cells) for s in STORES})

    def merge_sig(self, c, a, b, node):
        if a is None and b is None:
            return None
        if a is not None and b is not None and a[0] == b[0]:
            if a[0] == 'ret':
                return ('ret', self.merge_val(c, a[1], b[1]))
            return a
        if {a and a[0], b and b[0]} == {'ret', None}:
            av = a[1] if a else None
            bv = b[1] if b else None
            return ('ret', self.merge_val(c, av, bv))
        if 'brk' in (a and a[0], b and b[0]) and (a is None or b is None):
            # a break on one side of an abstract loop: the join leaves the loop
            self.event('cond-break', c, node)
            return ('condbrk', c if (a and a[0] == 'brk') else X.ONE - c)
        self.note('incompatible control flow join', node)
        return a or b

    def snapshot(self, fr):
        return ({s: (list(s.cells), list(s.prov)) for s in STORES},
                {id(c): (c, list(c) if isinstance(c, list) else dict(c)) for c in list(CONTAINERS)},
                )

    def restore(self, h, fr):
        st, ct = h
        for s, (cells, prov) in st.items():
            s.cells = list(cells)
            s.prov = list(prov)
        for c, val in ct.values():
            if isinstance(c, list):
                c[:] = val
            else:
                c.clear()
                c.update(val)

    def merge(self, c, ha, hb, fr):
        sa, ca = ha
        sb, cb = hb
        for s in set(sa) | set(sb):
            if s in sa and s in sb:
                (x, px), (y, py) = sa[s], sb[s]
                s.cells = [self.merge_cell(c, p, q) for p, q in zip(x, y)]
                s.prov = [q if q is not None and q != p else p for p, q in zip(px, py)]
            else:
                x, px = sa.get(s) or sb.get(s)
                s.cells, s.prov = list(x), list(px)
        for k in set(ca) | set(cb):
            if k in ca and k in cb:
                o, va = ca[k]
                _, vb = cb[k]
                if isinstance(o, list):
                    if len(va) == len(vb):
                        o[:] = [self.merge_val(c, p, q) for p, q in zip(va, vb)]
                    else:
                        o[:] = va if len(va) > len(vb) else vb
                        self.note('list length differs across branches')
                else:
                    new = {}
                    for key in list(va) + [q for q in vb if q not in va]:
                        if key in va and key in vb:
                            new[key] = self.merge_val(c, va[key], vb[key])
                        else:
                            # bound on one side only
                            new[key] = va[key] if key in va else vb[key]
                    o.clear()
                    o.update(new)
            else:
                o, v = ca.get(k) or cb.get(k)
                if isinstance(o, list):
                    o[:] = v
                else:
                    o.clear()
                    o.update(v)

    def merge_cell(self, c, p, q):
        if p is q:
            return p
        if isinstance(p, Top) or isinstance(q, Top):
            return p if isinstance(p, Top) else q
        if p == q:
            return p
        return c*p + (X.ONE - c)*q

    def merge_val(self, c, p, q):
        if p is q:
            return p
        pe, qe = to_expr(p), to_expr(q)
        if isinstance(p, (bool, AbsBool)) and isinstance(q, (bool, AbsBool)):
            return mkbool(c*pe + (X.ONE - c)*qe)
        if pe is not None and qe is not None and not isinstance(p, IndexVar):
            return simp(pe if pe == qe else c*pe + (X.ONE - c)*qe)
        if isinstance(p, Arr) and isinstance(q, Arr):
            if p.store is q.store and p.idx == q.idx and p.fixed == q.fixed:
                return p
            if p.cshape == q.cshape and len(p.dims) == len(q.dims):
                a, b = self.arr_get(p), self.arr_get(q)
                r = self.new_arr(p.cshape, p.dims, promote(p.dtype, q.dtype), space=p.space, kind=p.kind)
                r.store.cells = [self.merge_cell(c, u, v) for u, v in zip(a, b)]
                return r
        if isinstance(p, tuple) and isinstance(q, tuple) and len(p) == len(q):
            return tuple(self.merge_val(c, u, v) for u, v in zip(p, q))
        try:
            if type(p) is type(q) and p == q:
                return p
        except Exception:
            pass
        if isinstance(p, PyFunc) and isinstance(q, PyFunc) and p.node is q.node:
            return p
        return Phi(c, p, q)

    def st_For(self, s, fr, rest):
        it = self.ev(s.iter, fr)
        if isinstance(it, SymRange):
            return self.sym_loop(s, it, fr)
        if isinstance(it, SymIter):
            return self.sym_loop(s, it, fr)
        seq = self.lazily(it, s)
        if seq is None:
            self.note('loop over unknown iterable', s)
            self.havoc_block(s.body, fr)
            return None
        broke = False
        del it
        for v in seq:
            self.assign(s.target, v, fr)
            sig = self.exec_block(s.body, fr)
            if sig is None or sig[0] == 'cont':
                continue
            if sig[0] == 'brk':
                broke = True
                break
            if sig[0] == 'condbrk':
                # remaining iterations happen only under the negated condition
                self.note('abstract break in unrolled loop', s)
                continue
            return sig
        if not broke and s.orelse:
            return self.exec_block(s.orelse, fr)
        return None

    def sym_loop(self, s, it, fr):
        """One evaluation of the body at the generic index."""
        self.uid += 1
        if isinstance(it, SymRange):
            iv = IndexVar(it.dim_of(), it.lo, it.hi, self.uid)
            self.assign(s.target, iv, fr)
        else:
            iv = it.make_var(self, self.uid)
            self.assign(s.target, it.element(self, iv), fr)
        assigned = assigned_names(s.body)
        # loop-carried scalars
        before = {}
        for n in assigned:
            if n in fr.vars and (is_num(fr.vars[n]) or isinstance(fr.vars[n], bool)):
                before[n] = fr.vars[n]
                fr.vars[n] = X.sym(self.fresh('carry_' + n), X.ALL, ('carry',))
        carry = {n: fr.vars[n] for n in before}
        stores0 = {st: list(st.cells) for st in STORES}
        self.loopvars.append(iv)
        self.iv_writes = getattr(self, 'iv_writes', [])
        mark = len(self.iv_writes)
        try:
            sig = self.exec_block(s.body, fr)
        finally:
            self.loopvars.pop()
        if sig is not None and sig[0] not in ('cont',):
            self.note('loop over a symbolic extent leaves early', s)
        catoms = set()
        for e in carry.values():
            catoms |= e.atoms()
        # array cells updated without this loop's index
        for st, idx, used, node in self.iv_writes[mark:]:
            if iv.uid not in used and st in stores0:
                for k in idx:
                    new, old = st.cells[k], stores0[st][k]
                    if isinstance(new, Top) or isinstance(old, Top):
                        continue
                    diff = new - old
                    if diff.is_zero():
                        continue
                    dim_axis = axis_of_dim(iv.dim)
                    if dim_axis is not None and dim_axis in diff.dep() or (old.atoms() and old.atoms() <= new.atoms()):
                        st.cells[k] = old + reduce_sum(diff, iv)
        del self.iv_writes[mark:]
        for n, old in before.items():
            new = fr.vars.get(n)
            if isinstance(new, Expr):
                if new == carry[n]:
                    fr.vars[n] = old
                elif new.atoms() & catoms:
                    delta = new - carry[n]
                    if not (X.all_atoms(delta) & catoms):
                        fr.vars[n] = to_expr(old) + reduce_sum(delta, iv)
                    else:
                        fr.vars[n] = self.top('loop-carried scalar %s' % n, s)
        if catoms:
            for st in STORES:
                for k, e in enumerate(st.cells):
                    if isinstance(e, Expr) and (X.all_atoms(e) & catoms):
                        st.cells[k] = Top('loop-carried value')
                        self.note('loop-carried value stored', s)
        return None

    def st_While(self, s, fr, rest):
        n = 0
        while True:
            c = self.truth(self.ev(s.test, fr), s)
            if c is False:
                if s.orelse:
                    return self.exec_block(s.orelse, fr)
                return None
            if isinstance(c, (AbsBool, Top)):
                return self.abstract_while_loop(s, c, fr)
            if n > 200:
                return self.abstract_while_loop(s, c, fr)
            nback = len(self.loop_backs)
            self.abstract_while = getattr(self, 'abstract_while', 0) + 1
            try:
                sig = self.exec_block(s.body, fr)
            finally:
                self.abstract_while -= 1
            n += 1
            if sig is None or sig[0] == 'cont':
                continue
            if sig[0] == 'brk':
                return None
            if sig[0] == 'condbrk':
                self.event('loop', (s.lineno, 'condbrk'), s)
                return None
            return sig

    def abstract_while_loop(self, s, c, fr):
        """Evaluate the body once for an arbitrary iteration."""
        ce = c.e if isinstance(c, AbsBool) else X.sym(self.fresh('cond_unknown'), (), ('idem', 'real', 'unknown'))
        self.event('loop-enter', ce, s)
        saved = dict(self.assume)
        self.do_assume(ce, True)
        self.ctrl.append((ce, True, self.loc(s)))
        self.abstract_while = getattr(self, 'abstract_while', 0) + 1
        try:
            sig = self.exec_block(s.body, fr)
        finally:
            self.abstract_while -= 1
            self.ctrl.pop()
            self.assume = saved
        self.event('loop-exit', ce, s)
        if sig is not None and sig[0] == 'ret':
            return sig
        return None

    def do_assume(self, ce, val):
        if len(ce.t) == 1:
            (m, k), = ce.t.items()
            if k == 1 and (val or len(m) == 1):
                for i, _ in m:
                    self.assume[i] = val
        elif len(ce.t) == 2 and () in ce.t and ce.t[()] == 1:
            (m,) = [q for q in ce.t if q != ()]
            if ce.t[m] == -1 and (len(m) == 1 or not val):
                for i, _ in m:
                    self.assume[i] = not val

    def truth(self, v, node=None):
        if isinstance(v, bool):
            return v
        if v is None:
            return False
        if isinstance(v, AbsBool):
            e = v.e
            if self.assume:
                for a in list(e.atoms()):
                    if a.id in self.assume:
                        e = X.subst_ind(e, a, 1 if self.assume[a.id] else 0)
            if self.rank and self.config.get('wave_axes'):
                e = not_mean_mode(e, self.config['wave_axes'])
            c = X.const_value(e)
            if c is None and self.config.get('oracle'):
                # the driver explores a particular path
                d = self.config['oracle'](e)
                if d is not None:
                    return d
            if c is None and self.config.get('far'):
                d = far_decide(e)
                if d is not None:
                    return d
            return AbsBool(e) if c is None else c != 0
        if isinstance(v, (int, Fraction)):
            return v != 0
        if isinstance(v, (str, tuple, list, dict, set)):
            return len(v) > 0
        if isinstance(v, Expr):
            return self.truth(mkbool(X.ONE - X.cond('eq0', v)), node)
        if isinstance(v, Arr):
            if v.size() == 1 and not v.dims:
                e = self.arr_get(v)[0]
                if isinstance(e, Expr):
                    return self.truth(mkbool(e if v.dtype == 'b' else X.ONE - X.cond('eq0', e)))
            return Top('truth of array')
        if isinstance(v, Top):
            return v
        if isinstance(v, CondList):
            acc = X.ONE
            for w, y in v.items_:
                acc = acc*(X.ONE - w)
            return mkbool(X.ONE - acc)
        if isinstance(v, Obj) and isinstance(v.cls, ClassObj):
            m = v.cls.lookup('__bool__') or v.cls.lookup('__len__')
            if m is not None:
                return self.truth(self.call(Bound(m[0], v), [], {}, node), node)
        return True

    # -------------------------------------------------------------- names
    def lookup(self, n, fr, node=None):
        if n in fr.vars and n not in fr.globals:
            return fr.vars[n]
        for c in fr.chain:
            if n in c:
                return c[n]
        if n in fr.module.env:
            return fr.module.env[n]
        if n in self.builtins:
            return self.builtins[n]
        raise AbsRaise('UnboundLocalError' if fr.func is not None and n in local_names(fr.func.node) else 'NameError',
                       "name '%s' is not defined" % n, node)

    # --------------------------------------------------------- expressions
    def ev(self, e, fr):
        f = getattr(self, 'ex_' + e.__class__.__name__, None)
        if f is None:
            return self.top('expression kind %s not modelled' % e.__class__.__name__, e)
        return f(e, fr)

    def ex_Constant(self, e, fr):
        v = e.value
        if isinstance(v, float):
            if v in (float('inf'), float('-inf')) or v != v:
                return X.sym(repr(v))
            return simp(lift(v)) if lift(v) is not None else v
        if isinstance(v, complex):
            return lift(v)
        return v

    def ex_Name(self, e, fr):
        return self.lookup(e.id, fr, e)

    def ex_Attribute(self, e, fr):
        return self.get_attr(self.ev(e.value, fr), e.attr, e)

    def ex_Subscript(self, e, fr):
        o = self.ev(e.value, fr)
        k = self.ev_index(e.slice, fr)
        return self.get_item(o, k, e)

    def ev_index(self, s, fr):
        if isinstance(s, ast.Index):
            s = s.value
        if isinstance(s, ast.Tuple):
            out = []
            for x in s.elts:
                if isinstance(x, ast.Starred):
                    out.extend(self.iterate(self.ev(x.value, fr), x))
                else:
                    out.append(self.ev_index(x, fr))
            return tuple(out)
        if isinstance(s, ast.Slice):
            g = lambda q: None if q is None else self.ev(q, fr)
            return slice(g(s.lower), g(s.upper), g(s.step))
        v = self.ev(s, fr)
        return simp(v) if isinstance(v, Expr) else v

    def ex_Slice(self, e, fr):
        return self.ev_index(e, fr)

    def ex_Tuple(self, e, fr):
        return tuple(self.ev_elts(e.elts, fr))

    def ex_List(self, e, fr):
        return AList(self.ev_elts(e.elts, fr))

    def ex_Set(self, e, fr):
        return set(self.ev_elts(e.elts, fr))

    def ev_elts(self, elts, fr):
        out = []
        for x in elts:
            if isinstance(x, ast.Starred):
                seq = self.iterate(self.ev(x.value, fr), x)
                out.extend(seq if seq is not None else [Top('star')])
            else:
                out.append(self.ev(x, fr))
        return out

    def ex_Dict(self, e, fr):
        d = ADict()
        for k, v in zip(e.keys, e.values):
            if k is None:
                src = self.ev(v, fr)
                items = self.dict_items(src)
                if items is None:
                    self.note('** of unknown mapping', e)
                else:
                    d.update(items)
            else:
                d[self.ev(k, fr)] = self.ev(v, fr)
        return d

    def dict_items(self, v):
        if isinstance(v, dict):
            return dict(v)
        if isinstance(v, Obj):
            if v.cls in ('AttrDict', 'Params'):
                return {k: x for k, x in v.attrs.items()}
            if isinstance(getattr(v, 'items', None), dict):
                return dict(v.items)
        return None

    def ex_Lambda(self, e, fr):
        node = ast.FunctionDef(name='<lambda>', args=e.args, body=[ast.Return(value=e.body, lineno=e.lineno, col_offset=0)],
                               decorator_list=[], lineno=e.lineno, col_offset=0)
        chain = fr.chain if fr.vars is fr.module.env else [fr.vars] + fr.chain
        return PyFunc(node, fr.module, chain, [self.ev(d, fr) for d in e.args.defaults],
                      [None if d is None else self.ev(d, fr) for d in e.args.kw_defaults], '<lambda>')

    def ex_IfExp(self, e, fr):
        c = self.truth(self.ev(e.test, fr), e)
        if c is True:
            return self.ev(e.body, fr)
        if c is False:
            return self.ev(e.orelse, fr)
        ce = c.e if isinstance(c, AbsBool) else X.sym(self.fresh('cond_unknown'), (), ('idem', 'real', 'unknown'))
        vals = []
        for val, sub in ((True, e.body), (False, e.orelse)):
            saved = dict(self.assume)
            self.do_assume(ce, val)
            self.ctrl.append((ce, val, self.loc(e)))
            try:
                vals.append(self.ev(sub, fr))
            finally:
                self.ctrl.pop()
                self.assume = saved
        return self.merge_val(ce, vals[0], vals[1])

    def ex_BoolOp(self, e, fr):
        isand = isinstance(e.op, ast.And)
        acc = X.ONE
        last = None
        saved = dict(self.assume)
        npush = 0
        anyabs = False
        try:
            for sub in e.values:
                v = self.ev(sub, fr)
                t = self.truth(v, e)
                last = v
                if t is True:
                    if not isand:
                        return v if not anyabs else (True if False else self._or(acc, X.ONE))
                    continue
                if t is False:
                    if isand:
                        return v if not anyabs else False
                    continue
                anyabs = True
                te = t.e if isinstance(t, AbsBool) else X.sym(self.fresh('cond_unknown'), (), ('idem', 'real', 'unknown'))
                acc = acc*(te if isand else (X.ONE - te))
                self.do_assume(te, isand)
                self.ctrl.append((te, isand, self.loc(e)))
                npush += 1
        finally:
            self.assume = saved
            for _ in range(npush):
                self.ctrl.pop()
        if not anyabs:
            return last
        return mkbool(acc if isand else X.ONE - acc)

    def _or(self, acc, e):
        return True

    def ex_UnaryOp(self, e, fr):
        v = self.ev(e.operand, fr)
        if isinstance(e.op, ast.Not):
            t = self.truth(v, e)
            if isinstance(t, bool):
                return not t
            if isinstance(t, AbsBool):
                return mkbool(X.ONE - t.e)
            return t
        if isinstance(e.op, ast.USub):
            return self.binop('Mult', -1, v, e)
        if isinstance(e.op, ast.UAdd):
            return v
        if isinstance(e.op, ast.Invert):
            if isinstance(v, Arr) and v.dtype == 'b':
                return self.elementwise(lambda a: X.ONE - a, [v], e, dtype='b')
            if isinstance(v, AbsBool):
                return mkbool(X.ONE - v.e)
            if isinstance(v, int):
                return ~v
        return self.top('unary operator', e)

    def ex_BinOp(self, e, fr):
        return self.binop(e.op.__class__.__name__, self.ev(e.left, fr), self.ev(e.right, fr), e)

    def ex_Compare(self, e, fr):
        left = self.ev(e.left, fr)
        acc = True
        for op, r in zip(e.ops, e.comparators):
            right = self.ev(r, fr)
            v = self.compare(op.__class__.__name__, left, right, e)
            if acc is True:
                acc = v
            elif v is False or acc is False:
                acc = False
            elif isinstance(acc, AbsBool) and isinstance(v, AbsBool):
                acc = mkbool(acc.e*v.e)
            elif v is not True:
                acc = Top('compare chain')
            left = right
        return acc

    CMPD = {'Eq': '__eq__', 'NotEq': '__ne__', 'Lt': '__lt__', 'LtE': '__le__', 'Gt': '__gt__', 'GtE': '__ge__'}

    def compare(self, op, a, b, node):
        if isinstance(a, str) and isinstance(b, ListedName):
            a, b = b, a
        if isinstance(a, ListedName) and isinstance(b, str) and op in ('Eq', 'NotEq'):
            c = X.sym('file:' + b, (), ('idem', 'real', 'local'))
            return mkbool(c if op == 'Eq' else X.ONE - c)
        if op in self.CMPD and isinstance(a, Obj) and isinstance(a.cls, ClassObj) and a.cls.lookup(self.CMPD[op]):
            return self.call(Bound(a.cls.lookup(self.CMPD[op])[0], a), [b], {}, node)
        if isinstance(a, Phi) or isinstance(b, Phi):
            if isinstance(a, Phi):
                p, q = self.compare(op, a.a, b, node), self.compare(op, a.b, b, node)
                c = a.c
            else:
                p, q = self.compare(op, a, b.a, node), self.compare(op, a, b.b, node)
                c = b.c
            return self.merge_val(c, p, q)
        if op in ('Is', 'IsNot'):
            if isinstance(a, Top) or isinstance(b, Top):
                return self.top('identity of unknown', node)
            if a is None or b is None:
                r = (a is None) and (b is None)
            elif isinstance(a, Arr) and isinstance(b, Arr):
                r = a is b
            elif isinstance(a, Ext) and isinstance(b, Ext):
                r = a == b
            else:
                r = a is b or (isinstance(a, (str, int, bool)) and type(a) is type(b) and a == b)
            return r if op == 'Is' else not r
        if op in ('In', 'NotIn'):
            r = self.contains(b, a, node)
            if isinstance(r, bool):
                return r if op == 'In' else not r
            if isinstance(r, AbsBool):
                return r if op == 'In' else mkbool(X.ONE - r.e)
            return r
        if isinstance(a, Top) or isinstance(b, Top):
            return Top('compare')
        if isinstance(a, Arr) or isinstance(b, Arr):
            def f(x, y):
                return self.cmp_expr(op, x, y)
            return self.elementwise(f, [a, b], node, dtype='b')
        ea, eb = to_expr(a), to_expr(b)
        if ea is not None and eb is not None:
            return mkbool(self.cmp_expr(op, ea, eb))
        if op == 'Eq' or op == 'NotEq':
            if isinstance(a, (tuple, list)) and isinstance(b, (tuple, list)):
                if type(a) is not type(b) and not (isinstance(a, list) and isinstance(b, list)):
                    r = False
                elif len(a) != len(b):
                    r = False
                else:
                    acc = X.ONE
                    r = None
                    for x, y in zip(a, b):
                        v = self.compare('Eq', x, y, node)
                        if v is False:
                            r = False
                            break
                        if isinstance(v, AbsBool):
                            acc = acc*v.e
                        elif v is not True:
                            return Top('compare')
                    if r is None:
                        v = mkbool(acc)
                        if op == 'Eq':
                            return v
                        return (not v) if isinstance(v, bool) else mkbool(X.ONE - v.e)
                return r if op == 'Eq' else not r
            if isinstance(a, StrTop) or isinstance(b, StrTop):
                return Top('compare of unknown string')
            try:
                r = bool(a == b)
            except Exception:
                r = a is b
            return r if op == 'Eq' else not r
        if isinstance(a, str) and isinstance(b, str):
            return {'Lt': a < b, 'LtE': a <= b, 'Gt': a > b, 'GtE': a >= b}[op]
        if isinstance(a, (set, frozenset)) and isinstance(b, (set, frozenset)):
            return {'Lt': a < b, 'LtE': a <= b, 'Gt': a > b, 'GtE': a >= b}[op]
        return self.top('comparison', node)

    def cmp_expr(self, op, a, b):
        if op == 'Eq':
            return X.cond('eq0', a-b)
        if op == 'NotEq':
            return X.ONE - X.cond('eq0', a-b)
        if op == 'Gt':
            return X.cond('gt0', a-b)
        if op == 'Lt':
            return X.cond('gt0', b-a)
        if op == 'GtE':
            return X.ONE - X.cond('gt0', b-a)
        if op == 'LtE':
            return X.ONE - X.cond('gt0', a-b)
        raise KeyError(op)

    def contains(self, c, x, node):
        if isinstance(c, self.models.H5Attrs):
            return x in self.models.disk_file(self, c.file.name)['attrs']
        if hasattr(c, 'items') and isinstance(c, Obj):
            from . import mapping
            if isinstance(c, mapping.PObj):
                return mapping.contains(self, c, x, node)
        if isinstance(c, Obj) and c.cls in ('AttrDict', 'Params'):
            return x in c.attrs
        if isinstance(c, Obj) and isinstance(c.cls, ClassObj) and c.cls.lookup('__contains__'):
            return self.truth(self.call(Bound(c.cls.lookup('__contains__')[0], c), [x], {}, node), node)
        if isinstance(c, (LazyIter, Obj)) and not isinstance(c, Top):
            seq = self.lazily(c, node)
            if seq is not None:
                c = list(seq)
        if isinstance(c, dict):
            return x in c
        if isinstance(c, str) and isinstance(x, str):
            return x in c
        if isinstance(c, (tuple, list, set, frozenset)):
            acc = X.ZERO
            unk = False
            for y in c:
                v = self.compare('Eq', x, y, node)
                if v is True:
                    return True
                if isinstance(v, AbsBool):
                    acc = acc + v.e - acc*v.e
                elif v is not False:
                    unk = True
            if unk:
                return Top('membership')
            return mkbool(acc)
        if isinstance(c, CondList):
            acc = X.ONE
            for w, y in c.items_:
                v = self.compare('Eq', x, y, node)
                if v is True or isinstance(v, AbsBool):
                    acc = acc*(X.ONE - w*(X.ONE if v is True else v.e))
                elif v is not False:
                    return Top('membership')
            return mkbool(X.ONE - acc)
        if isinstance(c, Top):
            # membership in unknown collection: symbolic condition
            if getattr(c, 'listing', False) and isinstance(x, str):
                return AbsBool(X.sym('file:' + x, (), ('idem', 'real', 'local')))
            return AbsBool(X.sym(self.fresh('member'), (), ('idem', 'real', 'unknown') + tuple(getattr(c, 'flags', ()))))
        return self.top('membership test', node)

    def ex_Call(self, e, fr):
        f = self.ev(e.func, fr)
        args, kwargs = [], {}
        unknown = False
        for a in e.args:
            if isinstance(a, ast.Starred):
                seq = self.iterate(self.ev(a.value, fr), a)
                if seq is None:
                    unknown = True
                else:
                    args.extend(seq)
            else:
                args.append(self.ev(a, fr))
        for k in e.keywords:
            v = self.ev(k.value, fr)
            if k.arg is None:
                items = self.dict_items(v)
                if items is None:
                    unknown = True
                else:
                    for kk, vv in items.items():
                        if kk in kwargs:
                            raise AbsRaise('TypeError', "got multiple values for keyword argument '%s'" % kk, e)
                        kwargs[kk] = vv
            else:
                if k.arg in kwargs:
                    raise AbsRaise('TypeError', "got multiple values for keyword argument '%s'" % k.arg, e)
                kwargs[k.arg] = v
        if unknown:
            for a in list(args) + list(kwargs.values()):
                self.havoc(a)
            return self.top('call with unknown arguments', e)
        return self.call(f, args, kwargs, e)

    def comp(self, e, fr, emit):
        sub = Frame(fr.module, [fr.vars] + fr.chain if fr.vars is not fr.module.env else fr.chain, fr.func)
        out, conds = [], []
        self.frames.append(sub)

        def rec(k):
            if k == len(e.generators):
                out.append(emit(sub))
                return
            g = e.generators[k]
            seq = self.lazily(self.ev(g.iter, sub), e)
            if seq is None:
                raise _UnknownIter()
            for v in seq:
                c = self.filtered(g, v, sub, e)
                if c is True:
                    rec(k+1)
                elif c is not False:
                    m = len(out)
                    rec(k+1)
                    conds[:] = [w if i < m else w*c.e for i, w in enumerate(conds + [X.ONE]*(len(out)-len(conds)))]
        try:
            rec(0)
        except _UnknownIter:
            return None
        finally:
            self.frames.pop()
        if conds:
            return CondList(list(zip(conds + [X.ONE]*(len(out)-len(conds)), out)))
        return out

    def ex_ListComp(self, e, fr):
        r = self.comp(e, fr, lambda s: self.ev(e.elt, s))
        return self.top('comprehension over unknown', e) if r is None else r if isinstance(r, CondList) else AList(r)

    def ex_GeneratorExp(self, e, fr):
        sub = Frame(fr.module, [fr.vars] + fr.chain if fr.vars is not fr.module.env else fr.chain, fr.func)
        first = self.lazily(self.ev(e.generators[0].iter, fr), e)
        if first is None:
            return self.top('comprehension over unknown', e)

        def rec(k):
            g = e.generators[k]
            if k == 0:
                seq = first
            else:
                seq = within(lambda: self.lazily(self.ev(g.iter, sub), e))
                if seq is None:
                    raise AnalysisError('generator expression over unknown')
            for v in seq:
                c = within(lambda: self.filtered(g, v, sub, e))
                if c is False:
                    continue
                if c is not True:
                    raise AnalysisError('abstract filter in generator expression')
                if k + 1 == len(e.generators):
                    yield within(lambda: self.ev(e.elt, sub))
                else:
                    for x in rec(k+1):
                        yield x

        def within(f):
            self.frames.append(sub)
            try:
                return f()
            finally:
                self.frames.pop()
        return LazyIter(rec(0))

    def filtered(self, g, v, sub, e):
        self.assign(g.target, v, sub)
        acc = X.ONE
        for c in g.ifs:
            t = self.truth(self.ev(c, sub), e)
            if t is False:
                return False
            if isinstance(t, AbsBool):
                acc = acc*t.e
            elif t is not True:
                raise AnalysisError('abstract filter in comprehension')
        return mkbool(acc)

    def ex_SetComp(self, e, fr):
        r = self.comp(e, fr, lambda s: self.ev(e.elt, s))
        return self.top('comprehension over unknown', e) if r is None else set(r)

    def ex_DictComp(self, e, fr):
        r = self.comp(e, fr, lambda s: (self.ev(e.key, s), self.ev(e.value, s)))
        return self.top('comprehension over unknown', e) if r is None else ADict(r)

    def ex_JoinedStr(self, e, fr):
        out = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                out.append(v.value)
            else:
                x = self.ev(v.value, fr)
                if isinstance(x, (str, int)) and v.format_spec is None:
                    out.append(str(x))
                elif len(e.values) == 1:
                    spec = '' if v.format_spec is None else self.ev(v.format_spec, fr)
                    return self.text_of(x, spec) if isinstance(spec, str) else StrTop()
                else:
                    return StrTop()
        return ''.join(out)

    def ex_Starred(self, e, fr):
        return self.ev(e.value, fr)

    def ex_NamedExpr(self, e, fr):
        v = self.ev(e.value, fr)
        self.assign(e.target, v, fr)
        return v

    def ex_Yield(self, e, fr):
        v = None if e.value is None else self.ev(e.value, fr)
        return fr.gen.emit(v)

    def ex_YieldFrom(self, e, fr):
        src = self.ev(e.value, fr)
        seq = self.lazily(src, e)
        if seq is None:
            raise AnalysisError('yield from unknown')
        for v in seq:
            fr.gen.emit(v)
        run = getattr(getattr(src, 'src', None), 'run', None)
        return run.result if run is not None else None

    def ex_Await(self, e, fr):
        return self.ev(e.value, fr)

    # --------------------------------------------------------- operators
    def binop(self, op, a, b, node):
        if isinstance(a, Phi) or isinstance(b, Phi):
            if isinstance(a, Phi):
                return self.merge_val(a.c, self.binop(op, a.a, b, node), self.binop(op, a.b, b, node))
            return self.merge_val(b.c, self.binop(op, a, b.a, node), self.binop(op, a, b.b, node))
        r = self.models.special_binop(self, op, a, b, node)
        if r is not NotImplemented:
            return r
        if isinstance(a, Top) or isinstance(b, Top):
            for v in (a, b):
                if isinstance(v, Arr):
                    r = self.new_arr(v.cshape, v.dims, v.dtype)
                    r.store.cells = [Top('operand')]*len(r.store.cells)
                    return r
            return Top('operand')
        if op == 'LShift':
            return self.binop('Mult', a, self.binop('Pow', 2, b, node), node)
        if isinstance(a, str):
            if op == 'Mod':
                return self.str_format(a, b)
            if op == 'Add' and isinstance(b, str):
                return a + b
            if op == 'Mult' and isinstance(b, int):
                return a*b
            return StrTop()
        if isinstance(a, StrTop) or isinstance(b, StrTop) or isinstance(b, str):
            if op == 'Add' and isinstance(a, int) and isinstance(b, str):
                raise AbsRaise('TypeError', 'int + str', node)
            return StrTop()
        if isinstance(a, tuple) and isinstance(b, tuple) and op == 'Add':
            return a + b
        if isinstance(a, list) and isinstance(b, list) and op == 'Add':
            return AList(list(a) + list(b))
        if isinstance(a, (list, tuple)) and isinstance(b, int) and op == 'Mult':
            return AList(list(a)*b) if isinstance(a, list) else a*b
        if isinstance(b, (list, tuple)) and isinstance(a, int) and op == 'Mult':
            return self.binop(op, b, a, node)
        if isinstance(a, (set, frozenset)) and isinstance(b, (set, frozenset)):
            return {'BitOr': a | b, 'BitAnd': a & b, 'Sub': a - b, 'BitXor': a ^ b}.get(op, Top('set op'))
        if isinstance(a, dict) and isinstance(b, dict) and op == 'BitOr':
            d = ADict(a)
            d.update(b)
            return d
        if isinstance(a, list) and isinstance(b, Arr):
            a = self.models.as_array(self, a, node)
        if isinstance(b, list) and isinstance(a, Arr):
            b = self.models.as_array(self, b, node)
        if isinstance(a, Arr) or isinstance(b, Arr):
            dt = self.op_dtype(op, a, b)
            r = self.elementwise(lambda x, y: self.scalar_op(op, x, y, node), [a, b], node, dtype=dt)
            return r
        ea, eb = to_expr(a), to_expr(b)
        if ea is None or eb is None:
            return self.top('operator %s on %s, %s' % (op, type(a).__name__, type(b).__name__), node)
        if isinstance(a, (bool, AbsBool)) and isinstance(b, (bool, AbsBool)):
            if op == 'BitAnd':
                return mkbool(ea*eb)
            if op == 'BitOr':
                return mkbool(ea + eb - ea*eb)
        if isinstance(a, int) and isinstance(b, int):
            if op == 'FloorDiv' and b:
                return a//b
            if op == 'Mod' and b:
                return a % b
            if op == 'LShift':
                return a << b
            if op == 'RShift':
                return a >> b
            if op == 'BitAnd':
                return a & b
            if op == 'BitOr':
                return a | b
            if op == 'BitXor':
                return a ^ b
        r = self.scalar_op(op, ea, eb, node)
        return simp(r)

    def op_dtype(self, op, a, b):
        def dt(v):
            if isinstance(v, Arr):
                return v.dtype
            e = to_expr(v)
            if e is not None and X.I_ATOM in e.atoms():
                return 'weakc'
            return None
        x, y = dt(a), dt(b)
        if 'weakc' in (x, y):
            o = y if x == 'weakc' else x
            return {'f4': 'c8', 'f8': 'c16', 'i8': 'c16', 'c8': 'c8', 'c16': 'c16'}.get(o, 'c16')
        r = promote(x, y)
        if op == 'Div' and r in ('i8', 'b'):
            r = 'f8'
        return r

    def scalar_op(self, op, a, b, node):
        if isinstance(a, Top) or isinstance(b, Top):
            return a if isinstance(a, Top) else b
        try:
            if op == 'Add':
                return a + b
            if op == 'Sub':
                return a - b
            if op == 'Mult':
                return a*b
            if op == 'Div':
                if b.is_zero():
                    raise AbsRaise('ZeroDivisionError', 'division by zero', node)
                return a/b
            if op == 'Pow':
                n = X.const_value(b)
                if n is not None and not a.t:
                    return X.ONE if n == 0 else X.ZERO
                if n is not None:
                    if n.denominator == 1 and abs(n) > 12:
                        return X.func('pow', a, b, pointwise=True)
                    return a**b
                return X.func('pow', a, b, pointwise=True)
            if op == 'FloorDiv':
                ca, cb = X.const_value(a), X.const_value(b)
                if ca is not None and cb:
                    return lift(Fraction(ca // cb))
                return X.func('floordiv', a, b, pointwise=True)
            if op == 'Mod':
                ca, cb = X.const_value(a), X.const_value(b)
                if ca is not None and cb:
                    return lift(Fraction(ca % cb))
                return X.func('mod', a, b, pointwise=True)
            if op in ('BitAnd',):
                return a*b
            if op in ('BitOr',):
                return a + b - a*b
        except ZeroDivisionError:
            raise AbsRaise('ZeroDivisionError', 'division by zero', node)
        return Top('operator ' + op)

    def text_of(self, x, spec):
        """Text of a number: exact, or rounded to the digits of the format."""
        import re
        r = StrTop()
        if isinstance(x, float):
            x = Fraction(x)
        if isinstance(x, (Expr, Fraction, int)) and not isinstance(x, bool):
            spec = spec.lstrip('%:')
            m = re.match(r'^[-+ 0]*\d*\.(\d+)[ge]$', spec)
            if spec in ('', 'r', 's') or m and int(m.group(1)) >= 17:
                r.value = x
            elif spec == 'd' or spec == 'i':
                r.value = x if isinstance(x, int) else X.func('int', lift(x), pointwise=True, flags=('real',))
            else:
                r.value = X.func('text ' + spec, lift(x), pointwise=True, flags=('real',))
        return r

    def str_format(self, fmt, args):
        import re
        a = args if isinstance(args, tuple) else (args,)
        if len(a) == 1 and re.match(r'^%[-+ 0-9.]*[a-z]$', fmt) and not isinstance(a[0], (str, int)):
            return self.text_of(a[0], fmt)
        if all(isinstance(x, (str, int)) for x in a):
            try:
                return fmt % a
            except Exception:
                return StrTop()
        return StrTop()

    # ------------------------------------------------------------- arrays
    def new_arr(self, cshape, dims, dtype, name=None, space=None, kind=None, init=None):
        n = 1
        for c in cshape:
            n *= c
        st = Store(n, dims, dtype, name, init)
        return Arr(st, cshape, range(n), dims, space=space, kind=kind)

    def arr_get(self, a):
        out = []
        for k in a.idx:
            e = a.store.cells[k]
            if a.fixed and isinstance(e, Expr):
                reg = tuple((ax, ix) for ax, ix in a.fixed if not (isinstance(ix, tuple) and ix[0] == 'rng'))
                if reg:
                    e = X.restrict(e, reg)
            out.append(e)
        return out

    def arr_set(self, a, v, node, whole=False):
        """a[...] = v with broadcasting."""
        if isinstance(v, Phi):
            v = self.merge_val(v.c, v.a, v.b)
        if isinstance(v, (list, tuple)):
            v = self.models.as_array(self, v, node)
        if isinstance(v, Arr):
            vals = self.broadcast_to(v, a.cshape, a.dims, node)
        else:
            e = to_expr(v)
            if e is None:
                e = v if isinstance(v, Top) else Top('stored ' + type(v).__name__)
            vals = [e]*a.size()
        prov = self.loc(node)
        if a.dtype in ('f4', 'f8') and isinstance(v, Arr) and v.dtype in ('c8', 'c16'):
            self.suspects.append(('complex-into-real', prov, 'complex value stored into real array'))
        if a.dtype in ('f4', 'f8'):
            vals = [self._real_store(e, prov) for e in vals]
        if a.dtype == 'i8':
            vals = [self._int_store(e) for e in vals]
        if a.dtype in ('f4', 'c8') and not (isinstance(v, Arr) and v.dtype in ('f4', 'c8', 'i8', 'b')):
            vals = [self.narrow(e) for e in vals]
        reg = X.region_ind(a.fixed) if a.fixed else None
        used = set(getattr(a, 'ivs', ()))
        for k, e in zip(a.idx, vals):
            if reg is not None:
                old = a.store.cells[k]
                if isinstance(old, Top) or isinstance(e, Top):
                    e = old if isinstance(old, Top) else e
                else:
                    e = old - reg*old + reg*e
            a.store.cells[k] = e
            a.store.prov[k] = prov
        if self.loopvars:
            self.iv_writes = getattr(self, 'iv_writes', [])
            self.iv_writes.append((a.store, tuple(a.idx), used, node))

    def _real_store(self, e, prov):
        return e

    def narrow(self, e):
        """Conversion of a double precision value to single precision."""
        if not self.config.get('double') or not isinstance(e, (Expr, Fraction, float)):
            return e
        e = lift(e)
        c = X.const_value(e)
        if c is not None:
            return e if c.denominator & (c.denominator-1) == 0 and abs(c.numerator) < 2**24 and c.denominator < 2**60 else \
                X.func('single', e, pointwise=True, flags=('real',))
        if all('index' in q.flags or 'dim' in q.flags or 'int' in q.flags or q.kind in ('ind', 'reg') or
               'stale' in q.flags or q.kind == 'fun' and q.name == 'single' for q in e.atoms()):
            return e
        return X.func('single', e, pointwise=True, flags=('real',) if X.is_real(e) else ())

    def _int_store(self, e):
        if isinstance(e, Expr):
            c = X.const_value(e)
            if c is not None and c.denominator != 1:
                return lift(Fraction(int(c)))
            if c is None and not self.models._whole(e):
                # storing into an integer array drops the fraction
                return X.func('trunc', e, pointwise=True)
        return e

    def arr_inplace(self, a, op, v, node):
        new = self.binop(op, a, v, node)
        if isinstance(new, Arr) and new.size() > a.size():
            raise AbsRaise('ValueError', 'non-broadcastable output operand', node)
        self.arr_set(a, new, node)

    def copy_arr(self, a, dtype=None, keep=True):
        r = self.new_arr(a.cshape, a.dims, dtype or a.dtype, space=a.space if keep else None,
                         kind=a.kind if keep else None)
        r.store.cells = list(self.arr_get(a))
        if r.dtype in ('f4', 'c8') and a.dtype in ('f8', 'c16'):
            r.store.cells = [self.narrow(e) for e in r.store.cells]
        return r

    def elementwise(self, f, args, node, dtype=None, space=None):
        """Apply scalar f over broadcast arguments."""
        arrs = [a for a in args if isinstance(a, Arr)]
        if not arrs:
            es = [to_expr(a) for a in args]
            if any(e is None for e in es):
                return Top('elementwise')
            return simp(f(*es))
        cshape, dims = self.broadcast_shapes([a.shape for a in arrs],
                                             [len(a.cshape) for a in arrs], node)
        cols = []
        for a in args:
            if isinstance(a, Arr):
                cols.append(self.broadcast_to(a, cshape, dims, node))
            else:
                e = to_expr(a)
                if e is None:
                    e = a if isinstance(a, Top) else Top('operand')
                n = 1
                for c in cshape:
                    n *= c
                cols.append([e]*n)
        if dtype is None:
            for a in arrs:
                dtype = promote(dtype, a.dtype)
        first = next((a for a in arrs if a.kind is not None and a.cshape == cshape), None)
        r = self.new_arr(cshape, dims, dtype, space=first.space if first else None,
                         kind=first.kind if first else None)
        cells = []
        for vals in zip(*cols):
            if any(isinstance(v, Top) for v in vals):
                cells.append(next(v for v in vals if isinstance(v, Top)))
            else:
                cells.append(f(*vals))
        r.store.cells = cells
        r.store.prov = [self.loc(node)]*len(cells)
        if not cshape and not dims:
            pass
        return r

    def broadcast_shapes(self, shapes, ncs, node):
        n = max(len(s) for s in shapes)
        out = [1]*n
        comp = [False]*n
        for s, nc in zip(shapes, ncs):
            off = n - len(s)
            for i, d in enumerate(s):
                if i < nc:
                    comp[off+i] = True
                o = out[off+i]
                d1 = is_one(d)
                if is_one(o):
                    out[off+i] = d
                elif d1:
                    pass
                elif not same_dim(o, d):
                    raise AbsRaise('ValueError', 'operands could not be broadcast together: %s' % (
                        ' and '.join(str(tuple(q)) for q in shapes)), node)
        # component axes are the leading concrete ones
        nc = 0
        for i in range(n):
            if isinstance(out[i], int) and (comp[i] or out[i] > 1) and i == nc:
                nc += 1
            else:
                break
        # an axis that is a component in one operand but spatial in another
        return tuple(out[:nc]), tuple(out[nc:])

    def broadcast_to(self, a, cshape, dims, node):
        """Cells of a broadcast against component shape cshape."""
        vals = self.arr_get(a)
        src = a.shape
        dst = tuple(cshape) + tuple(dims)
        # strip leading ones of a source with too many axes
        while len(src) > len(dst) and is_one(src[0]):
            src = src[1:]
        if len(src) > len(dst):
            raise AbsRaise('ValueError', 'could not broadcast %s into %s' % (a.shape, dst), node)
        for s, d in zip(reversed(src), reversed(dst)):
            if is_one(s):
                continue
            if not same_dim(s, d):
                raise AbsRaise('ValueError', 'could not broadcast %s into %s' % (a.shape, dst), node)
        # component strides of the source inside dst
        off = len(dst) - len(src)
        cs = a.cshape[len(a.shape)-len(src):] if len(a.shape) > len(src) else a.cshape
        strides = []
        acc = 1
        st = []
        for c in reversed(cs):
            st.append(acc)
            acc *= c
        st = list(reversed(st))
        n = 1
        for c in cshape:
            n *= c
        out = []
        for k in range(n):
            rem = k
            coord = []
            for c in reversed(cshape):
                coord.append(rem % c)
                rem //= c
            coord.reverse()
            idx = 0
            for i, c in enumerate(cs):
                j = off + i
                if j >= len(cshape):
                    if c != 1:
                        # component axis aligned with a spatial axis
                        idx = None
                        break
                    continue
                idx += (coord[j] if c != 1 else 0)*st[i]
            out.append(Top('component axis against spatial axis') if idx is None else vals[idx])
        return out

    def index_arr(self, a, key, node):
        """a[key] -> Arr view (never a scalar), or Top."""
        if isinstance(key, AList) or isinstance(key, list):
            key = (key,)
        if not isinstance(key, tuple):
            key = (key,)
        key = list(key)
        nreal = sum(1 for k in key if k is not None and k is not Ellipsis and not (isinstance(k, Ext) and k.q.endswith('newaxis')))
        total = len(a.cshape) + len(a.dims)
        if nreal > total:
            raise AbsRaise('IndexError', 'too many indices: %d for %d-dimensional array' % (nreal, total), node)
        if Ellipsis in [k if not isinstance(k, (Arr, Expr)) else 0 for k in key]:
            i = next(j for j, k in enumerate(key) if k is Ellipsis)
            key = key[:i] + [slice(None)]*(total - nreal) + key[i+1:]
        else:
            key = key + [slice(None)]*(total - nreal)
        # component part
        cpos = 0
        sel = [(0, [])]
        ccoords = [[]]
        newc = []
        dims, axes = [], []
        fixed = list(a.fixed)
        ivs = list(getattr(a, 'ivs', ()))
        ci = 0
        di = 0
        pick = []       # per component axis: list of indices
        keepc = []
        newaxis_before_comp = False
        for k in key:
            if k is None or (isinstance(k, Ext) and k.q.endswith('newaxis')):
                if ci < len(a.cshape) and len(a.cshape) > 0:
                    # new axis in front of component axes: treat as component of size 1
                    pick.append(('new', None))
                    keepc.append(1)
                else:
                    dims.append(1)
                    axes.append(None)
                continue
            if ci < len(a.cshape):
                n = a.cshape[ci]
                ci += 1
                if isinstance(k, Expr):
                    k = simp(k)
                if isinstance(k, bool):
                    k = int(k)
                if isinstance(k, int):
                    if not -n <= k < n:
                        raise AbsRaise('IndexError', 'index %d is out of bounds for axis of size %d' % (k, n), node)
                    pick.append(('int', k % n))
                elif isinstance(k, slice):
                    try:
                        r = range(n)[slice_simp(k)]
                    except TypeError:
                        return self.top('symbolic slice of component axis', node)
                    pick.append(('list', list(r)))
                    keepc.append(len(r))
                elif isinstance(k, (list, tuple)) and all(isinstance(simp(q), int) for q in k):
                    pick.append(('list', [simp(q) % n for q in k]))
                    keepc.append(len(k))
                elif isinstance(k, IndexVar) and n == 1:
                    pick.append(('int', 0))
                else:
                    return self.top('index %s of component axis' % type(k).__name__, node)
                continue
            d = a.dims[di]
            ax = a.axes[di]
            di += 1
            if isinstance(k, slice):
                lo, hi, stp = slice_simp3(k)
                if (lo in (None, 0)) and (hi is None or same_dim(hi, d)) and stp in (None, 1):
                    dims.append(d)
                    axes.append(ax)
                else:
                    if isinstance(d, int):
                        n = len(range(d)[slice(lo, hi, stp)]) if not isinstance(lo, Expr) and not isinstance(hi, Expr) else d
                        dims.append(n)
                    else:
                        dims.append(X.sym('len(%s:%s:%s of %s)' % (lo, hi, stp, d), (), ('real', 'nonneg', 'dim', 'sub')))
                    axes.append(ax)
                    if ax is not None:
                        fixed.append((ax, ('sl', str(lo), str(hi), str(stp))))
                continue
            if isinstance(k, IndexVar):
                ivs.append(k.uid)
                if is_one(d):
                    self.suspects.append(('index-out-of-range', self.loc(node),
                                          'loop index over %s used on an axis of length 1' % (k.dim,)))
                    raise AbsRaise('IndexError', 'loop index over extent %s used on an axis of length 1' % (k.dim,), node)
                if not same_dim(k.dim, d):
                    self.suspects.append(('index-axis-mismatch', self.loc(node),
                                          'loop index over extent %s used on an axis of extent %s' % (k.dim, d)))
                    if ax is not None:
                        fixed.append((ax, ('iv', str(k.dim))))
                elif not k.full() or (lift(k.hi) != lift(d) and dim_class(lift(d)) is not None and
                                      any(dim_class(X.atom_expr(q)) not in (None, dim_class(lift(d)))
                                          for q in X.all_atoms(lift(k.hi)))):
                    # part of the axis, or an extent that depends on other axes
                    if ax is not None:
                        fixed.append((ax, ('rng', str(k.lo), str(k.hi))))
                continue
            if isinstance(k, Expr):
                k = simp(k)
            if isinstance(k, bool):
                k = int(k)
            if isinstance(k, int):
                if is_one(d):
                    if k not in (0, -1):
                        raise AbsRaise('IndexError', 'index %d out of bounds for axis of length 1' % k, node)
                elif ax is not None:
                    fixed.append((ax, k))
                continue
            if isinstance(k, Expr):
                m = simp(k - lift(d)) if not isinstance(d, int) else None
                if isinstance(m, int) and m < 0:
                    fixed.append((ax, m))
                else:
                    fixed.append((ax, ('e', str(k))))
                continue
            if isinstance(k, Arr) and k.dtype == 'b':
                return MaskView(a, k)
            return self.top('index %s of spatial axis' % type(k).__name__, node)
        # flat component indices
        strides = []
        acc = 1
        for c in reversed(a.cshape):
            strides.append(acc)
            acc *= c
        strides.reverse()
        flat = [0]
        si = 0
        for kind, p in pick:
            if kind == 'new':
                continue
            stv = strides[si]
            si += 1
            if kind == 'int':
                flat = [f + p*stv for f in flat]
            else:
                flat = [f + q*stv for f in flat for q in p]
        idx = [a.idx[f] for f in flat]
        space = a.space
        if space is not None:
            space = self.models.index_space(space, a.cshape, pick)
        v = Arr(a.store, keepc, idx, dims, fixed, axes, space, a.kind)
        v.ivs = tuple(ivs)
        return v

    # ------------------------------------------------------ item / attr
    def get_item(self, o, k, node):
        if isinstance(o, Phi):
            return self.merge_val(o.c, self.get_item(o.a, k, node), self.get_item(o.b, k, node))
        if isinstance(o, Arr):
            if isinstance(k, Arr) and k.dtype == 'b':
                return self.top('boolean mask read', node)
            r = self.models.arr_getitem(self, o, k, node)
            if r is not NotImplemented:
                return r
            v = self.index_arr(o, k, node)
            if isinstance(v, Arr) and not v.cshape and not v.dims:
                e = self.arr_get(v)[0]
                return simp(e) if isinstance(e, Expr) else e
            if isinstance(v, Top):
                return Top(v.why, o)
            return v
        if isinstance(o, Top):
            return Top('item of ' + o.why, o.of)
        if isinstance(o, dict):
            try:
                if k in o:
                    return o[k]
            except TypeError:
                return self.top('unhashable key', node)
            if getattr(o, 'default', None) is not None:
                v = self.call(o.default, [], {}, node)
                o[k] = v
                return v
            if isinstance(k, (Top, StrTop)):
                return self.top('dict item with unknown key', node)
            raise AbsRaise('KeyError', repr(k), node)
        if isinstance(o, (list, tuple)):
            if isinstance(k, slice):
                try:
                    r = o[slice_simp(k)]
                except TypeError:
                    return self.top('symbolic slice', node)
                return AList(r) if isinstance(o, list) else r
            if isinstance(k, bool):
                k = int(k)
            if isinstance(k, int):
                try:
                    return o[k]
                except IndexError:
                    raise AbsRaise('IndexError', 'list index out of range', node)
            if isinstance(k, (IndexVar, Expr, Top)):
                return self.top('list index unknown', node)
            raise AbsRaise('TypeError', 'list indices must be integers', node)
        if isinstance(o, str):
            if isinstance(k, slice):
                try:
                    return o[slice_simp(k)]
                except TypeError:
                    return StrTop()
            if isinstance(k, int):
                return o[k]
        if isinstance(o, StrTop):
            return StrTop()
        r = self.models.get_item(self, o, k, node)
        if r is not NotImplemented:
            return r
        if isinstance(o, Obj) and isinstance(o.cls, ClassObj):
            g = o.cls.lookup('__getitem__')
            if g:
                return self.call(Bound(g[0], o), [k], {}, node)
        return self.top('subscript of %s' % type(o).__name__, node)

    def set_item(self, o, k, v, node):
        if isinstance(o, Obj) and isinstance(o.cls, ClassObj) and o.cls.lookup('__setitem__'):
            self.call(Bound(o.cls.lookup('__setitem__')[0], o), [k, v], {}, node)
            return
        if isinstance(o, Arr):
            if isinstance(k, Arr) and k.dtype == 'b':
                cur = self.elementwise(lambda c, new, old: c*new + (X.ONE - c)*old, [k, v, o], node, dtype=o.dtype)
                self.arr_set(o, cur, node)
                return
            if isinstance(k, tuple) and len(k) > 1 and isinstance(k[-1], Arr) and k[-1].dtype == 'b' and \
                    len(k[-1].shape) == len(o.shape) - len(k) + 1 and \
                    all(isinstance(q, int) or isinstance(q, slice) and q == slice(None) for q in k[:-1]):
                self.set_item(self.get_item(o, tuple(k[:-1]), node), k[-1], v, node)
                return
            view = self.index_arr(o, k, node)
            if isinstance(view, Arr):
                self.arr_set(view, v, node)
            else:
                self.havoc(o)
                self.note('store through unknown index', node)
            return
        if isinstance(o, dict):
            o[k] = v
            return
        if isinstance(o, list):
            if isinstance(k, int):
                try:
                    o[k] = v
                except IndexError:
                    raise AbsRaise('IndexError', 'list assignment index out of range', node)
                return
            if isinstance(k, slice):
                seq = self.iterate(v, node)
                o[slice_simp(k)] = list(seq)
                return
        r = self.models.set_item(self, o, k, v, node)
        if r is not NotImplemented:
            return
        if isinstance(o, tuple):
            raise AbsRaise('TypeError', 'tuple does not support item assignment', node)
        if isinstance(o, Obj) and isinstance(o.cls, ClassObj):
            g = o.cls.lookup('__setitem__')
            if g:
                self.call(Bound(g[0], o), [k, v], {}, node)
                return
        if not isinstance(o, Top):
            self.note('item assignment on %s' % type(o).__name__, node)
        else:
            self.havoc(o)

    def get_attr(self, o, name, node, default=NotImplemented):
        if isinstance(o, Phi):
            return self.merge_val(o.c, self.get_attr(o.a, name, node), self.get_attr(o.b, name, node))
        if isinstance(o, Module):
            if name in o.env:
                return o.env[name]
            try:
                return self.import_module(o.name + '.' + name)
            except AbsRaise:
                pass
            if name == '__name__':
                return o.name
            raise AbsRaise('AttributeError', "module '%s' has no attribute '%s'" % (o.name, name), node)
        if isinstance(o, Ext):
            return self.models.ext_attr(self, o, name, node)
        r = self.models.get_attr(self, o, name, node)
        if r is not NotImplemented:
            return r
        if isinstance(o, Obj):
            if name in o.attrs:
                return o.attrs[name]
            if isinstance(o.cls, ClassObj):
                m = o.cls.lookup(name)
                if m is not None:
                    return self.bind(m[0], o, m[1], node)
                if name == '__class__':
                    return o.cls
                if name == '__dict__':
                    return o.attrs
                g = o.cls.lookup('__getattr__')
                if g:
                    return self.call(Bound(g[0], o), [name], {}, node)
                if o.cls.ext_bases() - {Ext('builtins.object')}:
                    return self.top('attribute %s of external base' % name, node)
            raise AbsRaise('AttributeError', "'%s' object has no attribute '%s'" % (
                o.cls if isinstance(o.cls, str) else o.cls.name, name), node)
        if isinstance(o, ClassObj):
            m = o.lookup(name)
            if m is not None:
                v = m[0]
                if isinstance(v, StaticM):
                    return v.f
                if isinstance(v, ClassM):
                    return Bound(v.f, o)
                return v
            if name == '__name__':
                return o.name
            if name == '__bases__':
                return tuple(o.bases)
            if o.ext_bases() - {Ext('builtins.object')}:
                return Ext('extbase.' + name)
            raise AbsRaise('AttributeError', "type object '%s' has no attribute '%s'" % (o.name, name), node)
        if isinstance(o, PyFunc):
            if name in o.attrs:
                return o.attrs[name]
            if name == '__name__':
                return o.name
            if name == '__doc__':
                return ast.get_docstring(o.node) if not isinstance(o.node, ast.Lambda) else None
            if name == '__module__':
                return o.module.name
            if name == '__dict__':
                return o.attrs
            raise AbsRaise('AttributeError', "function has no attribute '%s'" % name, node)
        if isinstance(o, Builtin):
            if name == '__name__':
                return o.name
            if name in o.attrs:
                return o.attrs[name]
        if isinstance(o, Bound):
            return self.get_attr(o.func, name, node)
        if isinstance(o, Top):
            return Top('attribute of ' + o.why, None if name in READERS else o.of)
        if o is None:
            raise AbsRaise('AttributeError', "'NoneType' object has no attribute '%s'" % name, node)
        return self.top('attribute %s of %s' % (name, type(o).__name__), node)

    def bind(self, v, o, owner, node):
        if isinstance(v, StaticM):
            return v.f
        if isinstance(v, ClassM):
            return Bound(v.f, o.cls)
        if isinstance(v, PropM):
            return self.call(v.f, [o], {}, node)
        if isinstance(v, PyFunc):
            return Bound(v, o)
        return v

    def set_attr(self, o, name, v, node):
        if isinstance(o, Module):
            o.env[name] = v
            return
        if self.models.set_attr(self, o, name, v, node) is not NotImplemented:
            return
        if isinstance(o, Obj):
            if isinstance(o.cls, ClassObj):
                g = o.cls.lookup('__setattr__')
                if g and not getattr(self, '_in_setattr', False):
                    self._in_setattr = True
                    try:
                        self.call(Bound(g[0], o), [name, v], {}, node)
                    finally:
                        self._in_setattr = False
                    return
            o.attrs[name] = v
            return
        if isinstance(o, (ClassObj, PyFunc)):
            o.attrs[name] = v
            return
        if isinstance(o, Builtin):
            o.attrs[name] = v
            return
        if isinstance(o, Ext):
            self.overrides_ext = getattr(self, 'overrides_ext', {})
            self.overrides_ext[o.q + '.' + name] = v
            return
        if isinstance(o, Arr):
            setattr(o, 'pyattr_' + name, v)
            return
        if isinstance(o, Top):
            return
        self.note('attribute assignment on %s' % type(o).__name__, node)

    # --------------------------------------------------------------- calls
    def lazily(self, v, node=None):
        """Python iterator over the elements (consumed one by one), or None."""
        if isinstance(v, LazyIter):
            return v.src
        if getattr(v, 'listing', False):
            return iter([ListedName()])
        if isinstance(v, CondList):
            raise AnalysisError('iteration over a list of unknown length')
        if type(v) in (list, AList):
            return _live(v)
        if isinstance(v, Obj) and isinstance(v.cls, ClassObj) and (v.cls.lookup('__iter__') or v.cls.lookup('__next__')):
            if v.cls.lookup('__iter__'):
                r = self.call(self.get_attr(v, '__iter__', node), [], {}, node)
                if r is not v:
                    return self.lazily(r, node)
            return self.nexts(v, node)
        seq = self.iterate(v, node)
        return None if seq is None else iter(list(seq))

    def nexts(self, v, node):
        while True:
            try:
                x = self.call(self.get_attr(v, '__next__', node), [], {}, node)
            except AbsRaise as e:
                if e.name == 'StopIteration':
                    return
                raise
            yield x

    def iterate(self, v, node=None):
        """Concrete sequence of elements, or None."""
        if isinstance(v, LazyIter):
            return list(v.src)
        if isinstance(v, Obj) and isinstance(v.cls, ClassObj) and (v.cls.lookup('__iter__') or v.cls.lookup('__next__')):
            r = self.lazily(v, node)
            return None if r is None else list(r)
        if isinstance(v, (tuple, list, range, set, frozenset)):
            return list(v)
        if isinstance(v, dict):
            return list(v.keys())
        if isinstance(v, str):
            return list(v)
        if isinstance(v, Arr):
            r = self.models.iter_space(self, v, node)
            if r is not None:
                return r
            if v.cshape:
                return [self.get_item(v, i, node) for i in range(v.cshape[0])]
            if v.dims and is_one(v.dims[0]):
                return [self.get_item(v, 0, node)]
            return None
        if isinstance(v, Obj):
            if v.cls in ('AttrDict', 'Params'):
                return list(v.attrs.keys())
            r = self.models.iterate(self, v, node)
            if r is not None:
                return r
        return None

    def call(self, f, args, kwargs, node):
        if isinstance(f, Builtin):
            return f.f(self, args, kwargs, node)
        if isinstance(f, PyFunc):
            return self.call_py(f, args, kwargs, node)
        if isinstance(f, Bound):
            return self.call(f.func, [f.self_] + list(args), kwargs, node)
        if isinstance(f, Ext):
            return self.models.call_ext(self, f, args, kwargs, node)
        if isinstance(f, ClassObj):
            return self.instantiate(f, args, kwargs, node)
        if isinstance(f, Phi):
            pre = self.snapshot(None)
            ce = f.c
            a = self.call(f.a, args, kwargs, node)
            ha = self.snapshot(None)
            self.restore(pre, None)
            b = self.call(f.b, args, kwargs, node)
            hb = self.snapshot(None)
            self.merge(ce, ha, hb, None)
            return self.merge_val(ce, a, b)
        if isinstance(f, StaticM):
            return self.call(f.f, args, kwargs, node)
        if isinstance(f, Obj):
            r = self.models.call_obj(self, f, args, kwargs, node)
            if r is not NotImplemented:
                return r
            if isinstance(f.cls, ClassObj):
                m = f.cls.lookup('__call__')
                if m:
                    return self.call(Bound(m[0], f), args, kwargs, node)
        if isinstance(f, Top):
            self.note('call of unknown function (%s)' % f.why, node)
            for a in [f] + list(args) + list(kwargs.values()):
                self.havoc(a)
            return Top('result of unknown call')
        if f is None or isinstance(f, (int, str, Expr, tuple, list, dict, Arr)):
            raise AbsRaise('TypeError', "'%s' object is not callable" % type(f).__name__, node)
        return self.top('call of %s' % type(f).__name__, node)

    def instantiate(self, c, args, kwargs, node):
        r = self.models.instantiate(self, c, args, kwargs, node)
        if r is not NotImplemented:
            return r
        o = Obj(c)
        m = c.lookup('__init__')
        if m is not None and isinstance(m[0], (PyFunc, Builtin)):
            self.call(Bound(m[0], o), args, kwargs, node)
        elif args or kwargs:
            if any(b.q.endswith(('Exception', 'Error')) for b in c.ext_bases() if isinstance(b, Ext)):
                o.attrs['msg'] = str(args[0]) if args else ''
        return o

    def bind_args(self, f, args, kwargs, node):
        a = f.node.args
        pos = [x.arg for x in getattr(a, 'posonlyargs', [])] + [x.arg for x in a.args]
        vals = {}
        fname = f.name
        if len(args) > len(pos) and a.vararg is None:
            raise AbsRaise('TypeError', '%s() takes %d positional arguments but %d were given' % (
                fname, len(pos), len(args)), node)
        for n, v in zip(pos, args):
            vals[n] = v
        extra = list(args[len(pos):])
        kw = dict(kwargs)
        for n in list(kw):
            if n in pos or n in [x.arg for x in a.kwonlyargs]:
                if n in vals:
                    raise AbsRaise('TypeError', "%s() got multiple values for argument '%s'" % (fname, n), node)
                vals[n] = kw.pop(n)
        nd = len(f.defaults)
        for i, n in enumerate(pos):
            if n not in vals:
                j = i - (len(pos) - nd)
                if j >= 0:
                    vals[n] = f.defaults[j]
                else:
                    raise AbsRaise('TypeError', "%s() missing required argument '%s'" % (fname, n), node)
        for x, d, has in zip(a.kwonlyargs, f.kwdefaults, a.kw_defaults):
            if x.arg not in vals:
                if has is None:
                    raise AbsRaise('TypeError', "%s() missing keyword argument '%s'" % (fname, x.arg), node)
                vals[x.arg] = d
        if a.vararg is not None:
            vals[a.vararg.arg] = tuple(extra)
        if a.kwarg is not None:
            vals[a.kwarg.arg] = ADict(kw)
        elif kw:
            raise AbsRaise('TypeError', "%s() got an unexpected keyword argument '%s'" % (fname, sorted(map(str, kw))[0]), node)
        return vals

    def call_py(self, f, args, kwargs, node):
        q = f.module.name + '.' + f.name
        hook = self.opaque_calls.get(q)
        if hook is not None:
            r = hook(self, f, args, kwargs, node)
            if r is not NotImplemented:
                return r
        vals = self.bind_args(f, args, kwargs, node)
        if len(self.frames) > MAXDEPTH:
            raise AnalysisError('call depth')
        if getattr(f.node, 'c_types', None):
            cyx.check_typed_args(self, f, vals, node)
        if getattr(f.node, 'p_exports', None):
            cyx.check_exports(self, f, vals, node)
        fr = Frame(f.module, f.env, f)
        fr.cls = f.cls
        fr.vars = ADict(vals)
        fr.ctypes = getattr(f.node, 'c_locals', {})
        key = (f.module.path, f.name, f.node.lineno)
        self.visited[key] = self.visited.get(key, 0) + 1
        if f.attrs.get('__isgen__'):
            def body():
                r = self.exec_block(f.node.body, fr)
                run.result = r[1] if r is not None and r[0] == 'ret' else None
            run = GenRun(self, fr, f.node.lineno, body)
            run.result = None
            return LazyIter(GenHandle(run))
        self.frames.append(fr)
        self.locs.append(f.node.lineno)
        try:
            sig = self.exec_block(f.node.body, fr)
        finally:
            self.frames.pop()
            self.locs.pop()
        if sig is not None and sig[0] == 'tail':
            sig = sig[1]
        if sig is not None and sig[0] == 'ret':
            return sig[1]
        return None

    def havoc(self, v, seen=None):
        """Forget everything reachable through v that a callee could write."""
        if isinstance(v, Arr):
            for k in v.idx:
                v.store.cells[k] = Top('passed to unknown code')
        elif isinstance(v, Top):
            if v.of is not None:
                self.havoc(v.of)
        elif isinstance(v, (list, tuple)):
            for x in v:
                self.havoc(x)

    def havoc_block(self, body, fr):
        for n in assigned_names(body):
            fr.vars[n] = Top('assigned in unknown loop')
        for sub in body:
            for nd in ast.walk(sub):
                if isinstance(nd, (ast.Assign, ast.AugAssign)):
                    ts = nd.targets if isinstance(nd, ast.Assign) else [nd.target]
                    for t in ts:
                        if isinstance(t, (ast.Subscript, ast.Attribute)):
                            b = t
                            while isinstance(b, (ast.Subscript, ast.Attribute)):
                                b = b.value
                            if isinstance(b, ast.Name):
                                try:
                                    self.havoc(self.lookup(b.id, fr))
                                except AbsRaise:
                                    pass


class _UnknownIter(Exception):
    pass


class StrTop(object):
    """Unknown string."""
    def __repr__(self):
        return 'StrTop'


class ListedName(StrTop):
    """Any name of the directory listing."""


class CondList(object):
    """List whose elements are present under conditions."""
    def __init__(self, items):
        self.items_ = items           # (0/1 Expr, value)


class Phi(object):
    """Join of two values that have no common representation."""
    def __init__(self, c, a, b):
        self.c, self.a, self.b = c, a, b

    def __repr__(self):
        return 'Phi(%s ? %s : %s)' % (self.c, self.a, self.b)


class MaskView(object):
    def __init__(self, arr, mask):
        self.arr, self.mask = arr, mask


class StaticM(object):
    def __init__(self, f):
        self.f = f


class ClassM(object):
    def __init__(self, f):
        self.f = f


class PropM(object):
    def __init__(self, f):
        self.f = f


class SymRange(object):
    def __init__(self, lo, hi, step=1):
        self.lo, self.hi, self.step = lo, hi, step

    def dim_of(self):
        """Extent symbol the range refers to."""
        e = lift(self.hi)
        ds = [a for a in e.atoms() if 'dim' in a.flags]
        if len(ds) == 1:
            return X.atom_expr(ds[0])
        return e


class SymIter(object):
    """Iteration over the leading symbolic dim of arrays: zip/enumerate."""
    def __init__(self, parts, dim):
        self.parts, self.dim = parts, dim     # parts: list of 'index' or Arr; nested tuple form

    def make_var(self, interp, uid):
        return IndexVar(self.dim, 0, self.dim, uid)

    def element(self, interp, iv):
        def el(p):
            if isinstance(p, tuple):
                return tuple(el(q) for q in p)
            if isinstance(p, str):
                return iv
            v = interp.index_arr(p, iv, None)
            if isinstance(v, Arr) and not v.cshape and not v.dims:
                return interp.arr_get(v)[0]
            return v
        return el(self.parts)


def fr_cls(fr):
    return getattr(fr, 'cls', None)


def is_one(d):
    if isinstance(d, Expr):
        return X.const_value(d) == 1
    return d == 1


def same_dim(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a == b
    a, b = lift(a), lift(b)
    if a == b:
        return True
    # an extent of unknown relation (global N vs local part, slices) is accepted
    ka, kb = dim_class(a), dim_class(b)
    if ka is None or kb is None:
        return True
    return False


def dim_class(e):
    """(space kind, axis) of a local extent symbol, None when unknown."""
    if len(e.t) == 1:
        (m, c), = e.t.items()
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            a = X._BYID[m[0][0]]
            if 'extent' in a.flags:
                return a.name
    return None


def axis_of_dim(d):
    d = lift(d)
    for a in d.atoms():
        if 'extent' in a.flags:
            try:
                return int(a.name[-1])
            except ValueError:
                return None
    return None


def reduce_sum(e, iv):
    """Sum of e over the extent of the loop index."""
    ax = axis_of_dim(iv.dim)
    if ax is None:
        ax = 0
    return reduce_axes(e, (ax,), 'sum')


def first_wave(e):
    """Axes whose wavenumber at local index 0 must vanish for e (a sum of
    positive multiples of even powers) to vanish, else None."""
    axes = set()
    for m, c in e.t.items():
        if len(m) != 1 or c < 0 or (len(e.t) > 1 and m[0][1] % 2):
            return None
        a = X._BYID[m[0][0]]
        if a.kind != 'at' or 'wavenum' not in a.flags or len(a.args[1]) != 1 or a.args[1][0][1] != 0:
            return None
        axes.add(a.args[1][0][0])
    return axes


def not_mean_mode(e, wave):
    """On any rank but the first, the first local mode is not the mean mode."""
    gone = Expr({})
    hit = False
    for m, c in e.t.items():
        ax = set()
        for i, _ in m:
            a = X._BYID[i]
            if a.kind == 'ind' and a.name == 'eq0':
                ax |= first_wave(a.args[0]) or set()
        if ax >= wave:
            hit = True
        else:
            gone = gone + Expr({m: c})
    return gone if hit else e


def reduce_axes(e, axes, name='sum'):
    axes = frozenset(axes)
    out = X.ZERO
    if name != 'sum' and name != 'mean' and not (len(e.t) == 1 and all(c > 0 for c in e.t.values()) and e.dep() & axes and all(
            X._BYID[i].dep & axes for m in e.t for i, _ in m)):
        if not e.dep() & axes and name != 'prod':
            return e
        # extrema do not distribute over sums
        return X.func(name, e, tuple(sorted(axes)), dep=e.dep() - axes, flags=('local',))
    for m, c in e.t.items():
        outer, inner = [], []
        for i, ex in m:
            a = X._BYID[i]
            (inner if a.dep & axes else outer).append((i, ex))
        inn = Expr({tuple(inner): Fraction(1)})
        at = X.func(name, inn, tuple(sorted(axes)), dep=inn.dep() - axes, flags=('local',))
        out = out + Expr({tuple(outer): c})*at
    return out


def slice_simp(k):
    g = lambda q: simp(q) if isinstance(q, Expr) else q
    r = slice(g(k.start), g(k.stop), g(k.step))
    for q in (r.start, r.stop, r.step):
        if not (q is None or isinstance(q, int)):
            raise TypeError
    return r


def slice_simp3(k):
    g = lambda q: simp(q) if isinstance(q, Expr) else q
    return g(k.start), g(k.stop), g(k.step)


def has_escape(stmts):
    for s in stmts:
        if isinstance(s, (ast.Return, ast.Break, ast.Continue)):
            return True
        if isinstance(s, (ast.If, ast.With, ast.Try)):
            for f in ('body', 'orelse', 'finalbody'):
                if has_escape(getattr(s, f, []) or []):
                    return True
            for h in getattr(s, 'handlers', []):
                if has_escape(h.body):
                    return True
        if isinstance(s, (ast.For, ast.While)):
            if any(isinstance(n, ast.Return) for n in ast.walk(s)):
                return True
    return False


def walk_own(fn):
    """Nodes of fn, not of nested functions."""
    stack = list(fn.body)
    while stack:
        n = stack.pop()
        yield n
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.AsyncFunctionDef, ast.ClassDef)):
            continue
        for c in ast.iter_child_nodes(n):
            if not isinstance(c, (ast.FunctionDef, ast.Lambda, ast.AsyncFunctionDef, ast.ClassDef)):
                stack.append(c)


_LN = {}


def local_names(fn):
    r = _LN.get(id(fn))
    if r is None:
        r = set()
        for n in walk_own(fn):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                r.add(n.id)
        _LN[id(fn)] = r
    return r


def far_decide(e, sign=1, name='Tend'):
    """Truth of a condition when the symbol `name` exceeds everything else
    (sign=-1: lies below everything else); None if that does not decide it."""
    if X.rank_local(e):
        return None

    def lead(p):
        def f(a):
            if a.kind == 'fun' and a.name == 'abs':
                s = lead(a.args[0])
                return None if s in (None, 0) else (a.args[0] if s > 0 else -a.args[0])
            return None
        p = X.substitute(p, f)
        k = [v for m, v in p.t.items() if any(X._BYID[i].kind == 'sym' and X._BYID[i].name == name for i, _ in m)]
        if len(k) != 1 or isinstance(k[0], complex):
            return None
        (m,) = [m for m in p.t if any(X._BYID[i].kind == 'sym' and X._BYID[i].name == name for i, _ in m)]
        if len(m) != 1 or m[0][1] != 1:
            return None
        return sign if k[0] > 0 else -sign

    for a in list(e.atoms()):
        if a.kind == 'ind' and a.name in ('gt0', 'eq0'):
            s = lead(a.args[0])
            if s is not None:
                e = X.subst_ind(e, a, 1 if a.name == 'gt0' and s > 0 else 0)
    c = X.const_value(e)
    return None if c is None else c != 0


def assigned_names(body):
    r = set()
    for s in body:
        for n in ast.walk(s):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                r.add(n.id)
    return r
